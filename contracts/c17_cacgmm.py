"""Complex angular central Gaussian mixture model (C17; objective C06; normalisation C05; callers' arrays C09)."""

import copy
import inspect

import numpy as np

from vc.registry import contract
from vc.cutil import OpaqueFn, Rec

CA = "ssspy.bss.cacgmm"


class Setup:
    def __init__(self, c, nsrc="n", floor="ufunc", frames=3, **kw):
        self.c = c
        md = self.md = c.load(CA)
        self.M, self.I, self.J = c.dim("M", 2), c.dim("I", 1), c.dim("J", 2, nlo=frames)
        self.N = self.M if nsrc == "default" else c.dim("N", 2)
        M, N, I, J = self.M, self.N, self.I, self.J
        self.X = c.array("X", (M, I, J), "c")
        self.Z = c.array("Z", (M, I, J), "c")
        self.alpha = c.array("alpha", (N, I), "f", sign="pos")
        self.B = c.array("B", (N, I, M, M), "c", pd=True)
        self.gamma = c.array("gamma", (N, I, J), "f", sign="pos")
        self.floor = {"ufunc": lambda: c.ufunc("floor", sign="pos"), "none": lambda: None}[floor]()
        self.ref = c.index("ref", M)
        args = dict(n_sources=N, flooring_fn=self.floor, permutation_alignment=False, reference_id=self.ref, record_loss=False)
        args.update(kw)
        m = self.m = md.CACGMM(**args)
        m.input = self.X
        m.unit_input = self.Z
        m.n_sources, m.n_channels, m.n_bins, m.n_frames = N, M, I, J
        m.mixing, m.covariance, m.posterior = self.alpha, self.B, self.gamma

    def state(self):
        return dict(X=self.X, Z=self.Z, alpha=self.alpha, B=self.B, gamma=self.gamma)

    def fl(self, x):
        return x if self.floor is None else self.floor(x)

    def q(self, n, i, j):
        """z^H B^-1 z"""
        c, M = self.c, self.M
        v = c.inv(M, lambda a, b: self.B[n, i, a, b])
        return c.sum(M, lambda a: c.sum(M, lambda b: c.conj(self.Z[a, i, j]) * v(a, b) * self.Z[b, i, j]))

    def qa(self):
        return self.c.fresh_from((self.N, self.I, self.J), self.q, "f")

    def logp(self, qf):
        """log mixing weight + log density (up to the common constant): qf floored quadratic form"""
        c = self.c
        return lambda n, i, j: c.log(self.alpha[n, i]) - c.logabsdet(self.M, lambda a, b: self.B[n, i, a, b]) - self.M * c.log(qf[n, i, j])

    def frame(self, names):
        for k, v in self.state().items():
            if k in names:
                self.c.unchanged("%s not written" % k, v)


def numeric_real(x):
    return np.real(x)


for fl in ("ufunc", "none"):

    @contract("CACGMM posterior (floor: %s)" % fl, "C17", "bss.cacgmm.CACGMM.update_posterior", samples=6)
    def posterior(c, fl=fl):
        """Bayes' rule for the current parameters; memberships are probabilities"""
        s = Setup(c, floor=fl)
        s.m.update_posterior(flooring_fn=s.m.flooring_fn)
        G = s.m.posterior
        qf = s.fl(s.qa())
        lp = s.logp(qf)
        d = [s.N, s.I, s.J]
        c.shape("shape", G, (s.N, s.I, s.J))
        c.forall("Bayes' rule", d, lambda n, i, j: (G[n, i, j] * c.sum(s.N, lambda k: c.exp(lp(k, i, j))), c.exp(lp(n, i, j))))
        c.forall_pos("nonnegative", d, lambda n, i, j: G[n, i, j])
        c.forall("sums to one over sources at every time-frequency point", [s.I, s.J], lambda i, j: (c.sum(s.N, lambda n: G[n, i, j]), 1))
        c.ensure("parameters are not replaced", s.m.mixing is s.alpha and s.m.covariance is s.B)
        s.frame(("X", "Z", "alpha", "B", "gamma"))

    @contract("CACGMM parameters (floor: %s)" % fl, "C17", "bss.cacgmm.CACGMM.update_parameters", samples=6)
    def parameters(c, fl=fl):
        """mixing weights: mean membership; covariance: membership-weighted, Mahalanobis-normalised scatter"""
        s = Setup(c, floor=fl)
        N, M, I, J = s.N, s.M, s.I, s.J
        if c.symbolic:
            rec = Rec(c, s.md, "to_psd", lambda a: c.fresh_array("Bp", a["X"].shape, "c", herm=True))
        s.m.update_parameters(flooring_fn=s.m.flooring_fn)
        qf = s.fl(s.qa())
        A = s.m.mixing
        c.shape("shape of the mixing weights", A, (N, I))
        c.forall("mixing weight is the mean membership", [N, I], lambda n, i: (A[n, i], c.sum(J, lambda j: s.gamma[n, i, j]) / J))
        c.forall_pos("mixing weights are nonnegative", [N, I], lambda n, i: A[n, i])
        cov = lambda n, i, a, b: M * c.sum(J, lambda j: s.gamma[n, i, j] / qf[n, i, j] * s.Z[a, i, j] * c.conj(s.Z[b, i, j])) / c.sum(J, lambda j: s.gamma[n, i, j])
        if c.symbolic:
            a = rec.only()
            c.forall("weighted scatter of every source", [N, I, M, M], lambda *ix: (a["X"][ix], cov(*ix)))
            c.forall("projected covariance is kept", [N, I, M, M], lambda *ix: (s.m.covariance[ix], c.inputs.get("Bp", s.m.covariance)[ix]))
            c.ensure("projection over the channel axes with the method's floor", a["axis1"] in (-2, 2) and a["axis2"] in (-1, 3) and a["flooring_fn"] is s.m.flooring_fn)
        else:
            P = c.load("ssspy.special.psd").to_psd(c.fresh_from((N, I, M, M), cov, "c"), flooring_fn=s.m.flooring_fn)
            c.forall("projected weighted scatter of every source", [N, I, M, M], lambda *ix: (s.m.covariance[ix], P[ix]))
        c.forall("Hermitian", [N, I, M, M], lambda n, i, a, b: (s.m.covariance[n, i, a, b], c.conj(s.m.covariance[n, i, b, a])))
        s.frame(("X", "Z", "alpha", "B", "gamma"))

    @contract("CACGMM compute_loss (floor: %s)" % fl, "C06 C17", "bss.cacgmm.CACGMM.compute_loss", samples=6)
    def loss(c, fl=fl):
        """negative log-likelihood of the mixture model (up to the constant of the density), mean over frames, sum over bins"""
        s = Setup(c, floor=fl)
        got = s.m.compute_loss()
        qf = s.fl(s.qa())
        lp = s.logp(qf)
        want = -c.sum(s.I, lambda i: c.sum(s.J, lambda j: c.log(c.sum(s.N, lambda n: c.exp(lp(n, i, j)))))) / s.J
        c.forall("documented objective", [1], lambda _: (got, want))
        if not c.symbolic:
            c.ensure("a finite real Python number", type(got) is float and np.isfinite(got))
        s.frame(("X", "Z", "alpha", "B", "gamma"))


@contract("CACGMM mixing weights sum to one", "C17", "bss.cacgmm.CACGMM.update_posterior bss.cacgmm.CACGMM.update_parameters", samples=6)
def mixing_sum(c):
    """after the posterior update memberships sum to one, hence so do their means"""
    s = Setup(c)
    if c.symbolic:
        Rec(c, s.md, "to_psd", lambda a: c.fresh_array("Bp", a["X"].shape, "c", herm=True))
    s.m.update_posterior(flooring_fn=s.m.flooring_fn)
    s.m.update_parameters(flooring_fn=s.m.flooring_fn)
    c.forall("mixing weights sum to one in every bin", [s.I], lambda i: (c.sum(s.N, lambda n: s.m.mixing[n, i]), 1))


@contract("CACGMM normalize_covariance", "C05 C17", "bss.cacgmm.CACGMMBase.normalize_covariance", samples=6)
def normalize(c):
    """unit trace; posterior and likelihood of the model are unchanged"""
    s = Setup(c, floor="none", normalization=True)
    N, M, I, J = s.N, s.M, s.I, s.J
    m = s.m
    l0 = m.compute_loss()
    m.update_posterior()
    G0 = m.posterior.copy()
    m.normalize_covariance()
    B = m.covariance
    tr = lambda n, i: c.sum(M, lambda a: c.re(s.B[n, i, a, a]))
    c.forall("divided by the trace", [N, I, M, M], lambda n, i, a, b: (B[n, i, a, b] * tr(n, i), s.B[n, i, a, b]))
    c.forall("unit trace", [N, I], lambda n, i: (c.sum(M, lambda a: B[n, i, a, a]), 1))
    c.forall("Hermitian", [N, I, M, M], lambda n, i, a, b: (B[n, i, a, b], c.conj(B[n, i, b, a])))
    c.ensure("mixing weights kept", m.mixing is s.alpha)
    l1 = m.compute_loss()
    c.forall("likelihood unchanged", [1], lambda _: (l1, l0))
    m.update_posterior()
    c.forall("memberships unchanged", [N, I, J], lambda *ix: (m.posterior[ix], G0[ix]))
    s.frame(("X", "Z", "alpha", "B"))


for norm in (True, False):

    @contract("CACGMM update_once normalization=%s" % norm, "C17", "bss.cacgmm.CACGMM.update_once", samples=4)
    def update_once(c, norm=norm):
        s = Setup(c, normalization=norm)
        m = s.m
        if c.symbolic:
            log = []
            every = ("update_posterior", "update_parameters", "normalize_covariance")
            floors = [nm for nm in every if "flooring_fn" in inspect.signature(getattr(m, nm)).parameters]
            for nm in every:
                c.stub(m, nm, lambda nm=nm, **k: log.append((nm, k)))
            m.update_once()
            want = ["update_posterior", "update_parameters"] + (["normalize_covariance"] if norm else [])
            if sorted(x for x, _ in log) != sorted(want):
                raise NotImplementedError
            c.ensure("memberships, then parameters, then the chosen normalisation", [x for x, _ in log] == want, repr(log))
            for x, k in log:
                f = k.get("flooring_fn", "self")
                c.ensure("method's own floor (%s)" % x, x not in floors or f == "self" and not c.explicit or f is m.flooring_fn)
            return
        q = copy.deepcopy(m)
        q.flooring_fn = m.flooring_fn
        m.update_once()
        q.update_posterior(flooring_fn=s.floor)
        q.update_parameters(flooring_fn=s.floor)
        if norm:
            q.normalize_covariance()
        for nm in ("posterior", "mixing", "covariance"):
            a, b = getattr(m, nm), getattr(q, nm)
            c.forall("one iteration: %s" % nm, list(a.shape), lambda *ix, a=a, b=b: (a[ix], b[ix]))


@contract("CACGMM separate", "C01 C17", "bss.cacgmm.CACGMM.separate", samples=6)
def separate(c):
    """masking of the reference channel by the memberships: the estimates add up to the reference channel"""
    s = Setup(c)
    N, I, J = s.N, s.I, s.J
    Y = s.m.separate(s.X, posterior=s.gamma)
    c.forall("membership times the reference channel", [N, I, J], lambda n, i, j: (Y[n, i, j], s.gamma[n, i, j] * s.X[s.ref, i, j]))
    Y2 = s.m.separate(s.X)
    s.m.update_posterior(flooring_fn=s.m.flooring_fn)
    G = s.m.posterior
    c.forall("without memberships: those of the current parameters", [N, I, J], lambda n, i, j: (Y2[n, i, j], G[n, i, j] * s.X[s.ref, i, j]))
    Y3 = s.m.separate(s.X, posterior=G)
    c.forall("estimates add up to the reference channel", [I, J], lambda i, j: (c.sum(N, lambda n: Y3[n, i, j]), s.X[s.ref, i, j]))
    c.forall("estimates add up to the reference channel (own memberships)", [I, J], lambda i, j: (c.sum(N, lambda n: Y2[n, i, j]), s.X[s.ref, i, j]))
    s.frame(("X", "Z", "alpha", "B", "gamma"))


class Rng:
    """random generator by its contract: arbitrary values in (0, 1)"""

    def __init__(self, c):
        self.c, self.k = c, 0

    def random(self, shape):
        self.k += 1
        return self.c.fresh_array("rand%d" % self.k, tuple(shape), "f", sign="pos")


for nsrc in ("n", "default"):

    @contract("CACGMM initial state (n_sources: %s)" % nsrc, "C17 C09", "bss.cacgmm.CACGMMBase._reset bss.cacgmm.CACGMMBase._init_parameters", samples=6)
    def reset(c, nsrc=nsrc):
        md = c.load(CA)
        M, I, J = c.dim("M", 2), c.dim("I"), c.dim("J")
        N = M if nsrc == "default" else c.dim("N", 2)
        X = c.array("X", (M, I, J), "c")
        floor = c.ufunc("floor", sign="pos")
        rng = Rng(c) if c.symbolic else np.random.default_rng(3)
        m = md.CACGMM(n_sources=None if nsrc == "default" else N, flooring_fn=floor, rng=rng, record_loss=False)
        m.input = X.copy()
        m._reset()
        c.ensure_int("number of sources", m.n_sources == N)
        nrm = floor(c.fresh_from((I, J), lambda i, j: c.sqrt(c.sum(M, lambda a: c.abs2(X[a, i, j])))))
        c.forall("direction of every observation", [M, I, J], lambda a, i, j: (m.unit_input[a, i, j] * nrm[i, j], X[a, i, j]))
        c.shape("shape of the mixing weights", m.mixing, (N, I))
        c.shape("shape of the covariances", m.covariance, (N, I, M, M))
        c.forall_pos("initial mixing weights are nonnegative", [N, I], lambda n, i: m.mixing[n, i])
        c.forall("initial mixing weights sum to one", [I], lambda i: (c.sum(N, lambda n: m.mixing[n, i]), 1))
        B = m.covariance
        c.forall("initial covariances are diagonal", [N, I, M, M], lambda n, i, a, b: (B[n, i, a, b], 0), where=lambda n, i, a, b: a != b)
        c.forall_pos("initial variances are nonnegative", [N, I, M], lambda n, i, a: B[n, i, a, a])
        c.forall("initial covariances have unit trace", [N, I], lambda n, i: (c.sum(M, lambda a: B[n, i, a, a]), 1))
        c.unchanged("mixture not modified", X)
        c.not_shared("mixture not shared", m.input, X)


ALIGN = [(True, "posterior", "score"), ("posterior_score", "posterior", "score"), ("amplitude_score", "amplitude", "score"), ("amplitude_correlation", "amplitude", "correlation")]

for pa, target, kind in ALIGN:

    @contract("CACGMM driver, permutation alignment %s" % pa, "C17 C08 C09 C18", "bss.cacgmm.CACGMM.__call__ bss.cacgmm.CACGMMBase.solve_permutation bss.cacgmm.CACGMMBase.solve_permutation_by_%s" % kind, samples=5)
    def align(c, pa=pa, target=target, kind=kind):
        """after the last update the memberships are recomputed, every parameter is permuted together, and the returned signals are
        the masked reference channel for the final memberships"""
        md = c.load(CA)
        M, I, J = c.dim("M", 2), c.dim("I", 1, nlo=2), c.dim("J", 2, nlo=6)
        N = c.dim("N", 2, nhi=3)
        X = c.array("X", (M, I, J), "c")
        ref = c.index("ref", M)
        gi, li = (2, 3) if kind == "score" else (None, None)
        kw = dict(global_iter=gi, local_iter=li) if kind == "score" else {}
        calls, base_calls = [], []
        rng = Rng(c) if c.symbolic else np.random.default_rng(5)
        make = lambda p, **k: md.CACGMM(n_sources=N, permutation_alignment=p, reference_id=ref, record_loss=False, rng=rng if c.symbolic else np.random.default_rng(5), **k)
        m = make(pa, **kw)
        if c.symbolic:
            base = c.load("ssspy.bss.base").IterativeMethodBase
            al = c.array("alpha1", (N, I), "f", sign="pos")
            B1 = c.array("B1", (N, I, M, M), "c", pd=True)
            G1 = c.array("gamma1", (N, I, J), "f", sign="pos")
            R = {k: c.array("aligned_" + k, sh, kd) for k, sh, kd in (("alpha", (I, N), "f"), ("B", (I, N, M, M), "c"), ("gamma", (I, N, J), "f"), ("Y", (I, N, J), "c"))}

            def iterate(self, *a, n_iter=100, initial_call=True, **k):
                base_calls.append((n_iter, initial_call))
                c.forall("iteration sees the mixture", list(X.shape), lambda *ix: (self.input[ix], X[ix]))
                self.mixing, self.covariance, self.posterior = al.copy(), B1.copy(), c.fresh_array("stale", (N, I, J), "f")

            def post(**k):
                base_calls.append("posterior")
                m.posterior = G1.copy()

            c.stub(base, "__call__", iterate)
            c.stub(m, "update_posterior", post)

            def solver(seq, *args, flooring_fn=None, overwrite=True, **k):
                calls.append(k)
                if target == "posterior":
                    if len(args) != 2:
                        raise NotImplementedError
                    c.forall("alignment sequence: memberships", [I, N, J], lambda i, n, j: (seq[i, n, j], G1[n, i, j]))
                    out, first = (R["alpha"], R["B"]), R["gamma"]
                else:
                    if len(args) != 3:
                        raise NotImplementedError
                    y = lambda n, i, j: G1[n, i, j] * X[ref, i, j]
                    if kind == "score":
                        c.forall("alignment sequence: amplitudes", [I, N, J], lambda i, n, j: (seq[i, n, j], c.abs(y(n, i, j))))
                    else:
                        c.forall("alignment sequence: separated spectrograms", [I, N, J], lambda i, n, j: (seq[i, n, j], y(n, i, j)))
                    c.forall("memberships aligned too", [I, N, J], lambda i, n, j: (args[2][i, n, j], G1[n, i, j]))
                    # contract of the solver: the returned sequence and arrays are re-indexed alike
                    Yp = c.fresh_from((I, N, J), lambda i, n, j: R["gamma"][i, n, j] * X[ref, i, j], "c")
                    out, first = (R["alpha"], R["B"], R["gamma"]), Yp
                c.forall("mixing weights aligned too", [I, N], lambda i, n: (args[0][i, n], al[n, i]))
                c.forall("covariances aligned too", [I, N, M, M], lambda i, n, a, b: (args[1][i, n, a, b], B1[n, i, a, b]))
                return first, out

            c.stub(md, "%s_based_permutation_solver" % kind, solver)
            n = c.dim("n_iter", 0)
            Y = m(X, n_iter=n, initial_call=False)
            if len(calls) != 1 or len(base_calls) != 2:
                raise NotImplementedError
            c.ensure_int("number of iterations is the caller's", base_calls[0][0] == n)
            c.ensure("initial evaluation as requested", base_calls[0][1] is False)
            c.ensure("memberships recomputed from the final parameters", base_calls[1] == "posterior")
            if kind == "score":
                c.ensure("iteration counts of the solver are the caller's", calls[0].get("global_iter") == gi and calls[0].get("local_iter") == li, repr(calls))
            c.forall("aligned mixing weights are kept", [N, I], lambda n, i: (m.mixing[n, i], R["alpha"][i, n]))
            c.forall("aligned covariances are kept", [N, I, M, M], lambda n, i, a, b: (m.covariance[n, i, a, b], R["B"][i, n, a, b]))
            c.forall("aligned memberships are kept", [N, I, J], lambda n, i, j: (m.posterior[n, i, j], R["gamma"][i, n, j]))
        else:
            n = int(c.rng.integers(0, 3))
            Y = m(X, n_iter=n)
            q = make(False)
            q(X, n_iter=n)
            # some permutation per bin maps all of q's parameters onto m's
            import itertools

            for i in range(I):
                ok = any(
                    np.allclose(m.posterior[:, i], q.posterior[list(p), i], rtol=1e-9)
                    and np.allclose(m.mixing[:, i], q.mixing[list(p), i], rtol=1e-9)
                    and np.allclose(m.covariance[:, i], q.covariance[list(p), i], rtol=1e-9)
                    for p in itertools.permutations(range(N))
                )
                c.ensure("every parameter is re-indexed by one permutation per bin", ok)
            c.forall("memberships sum to one", [I, J], lambda i, j: (np.sum(m.posterior[:, i, j]), 1))
            c.forall("mixing weights sum to one", [I], lambda i: (np.sum(m.mixing[:, i]), 1))
            c.forall("estimates add up to the reference channel", [I, J], lambda i, j: (np.sum(Y[:, i, j]), X[ref, i, j]))
        c.forall("returned signals: final memberships times the reference channel", [N, I, J], lambda n, i, j: (Y[n, i, j], m.posterior[n, i, j] * X[ref, i, j]))
        c.forall("returned array is the stored estimate", [N, I, J], lambda *ix: (Y[ix], m.output[ix]))
        c.unchanged("caller's mixture not modified", X)
        c.not_shared("caller's mixture not shared", m.input, X)
