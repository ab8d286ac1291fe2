"""Monotone descent (C07) of the matrix-valued models: full-rank multichannel NMF, IPSDTA, the mixture model.

lean/Matrices.lean proves, for Hermitian positive definite matrices of any size and any number of terms,
  psd_scalar_step   log det + trace objective of R = sum_k theta_k S_k under theta' = theta sqrt(num/den)
  psd_matrix_step   the same for R = sum_k lambda_k H_k when H' solves H' P H' = H Q H
  riccati_root      T S (S T P T S)^(-1/2) S T is such a solution
  vcd_step          one row of the blockwise coordinate descent
  em_step           one EM step of the complex angular central Gaussian mixture
The contracts of C04/C16/C17/C06/C05/C10 included here as supporting obligations are their hypotheses; the ones below add what
those do not say (the branch of the coordinate descent, the slope of the Student-t density) and, on the real code, compare
the objective before and after every single step.
"""

import copy

import numpy as np

from contracts import c04_ipsdta, c16_mnmf, c17_cacgmm
from contracts.c03_spatial import SM
from contracts.c07_monotone import decreases
from vc.explore import LoopSpec
from vc.cutil import Rec
from vc.registry import contract, lean, support

lean("C07", "Matrices.lean", "logdet_trace inv_major psd_scalar_step psd_matrix_step riccati_root vcd_step vcd_branch em_step")
support("C07", r"^GaussMNMF (update_(basis|activation|spatial|once)|compute_loss|trace normalisation)")
support("C07", r"^CACGMM (posterior|parameters|compute_loss|normalize_covariance|update_once|mixing weights)")
support("C07", r"^(Gauss|T)?IPSDTA (reconstruct|trace normalisation|compute_loss|update_(basis_mm|activation_mm|spatial_model|once))")
support("C07", r"^(gmeanmh|sqrtmh|invsqrtmh)")


# ---------------------------------------------------------------- full-rank multichannel NMF
for part in (False, True):
    pn = "shared" if part else "separate"
    for what in ("basis", "activation"):

        @contract("descent: GaussMNMF update_%s, %s bases" % (what, pn), "C07", "bss.mnmf.GaussMNMF.update_%s bss.mnmf.GaussMNMF.compute_loss" % what, samples=6)
        def scalar(c, part=part, what=what):
            s = c16_mnmf.Setup(c, part, "none")
            M, N, I, J, K = s.M, s.N, s.I, s.J, s.K
            step = getattr(s.m, "update_" + what)
            if not c.symbolic:
                decreases(c, s.m, step, tol=1e-7)
                return
            s.psd_stub(exact=True)
            step()
            t1, t2 = c16_mnmf.traces(s, s.R)
            T, V, Z = s.T, s.V, s.Z
            if part:
                f = {
                    "basis": (lambda t, i, k: c.sum(N, lambda n: Z[n, k] * c.sum(J, lambda j: V[k, j] * t(n, i, j)))),
                    "activation": (lambda t, k, j: c.sum(N, lambda n: Z[n, k] * c.sum(I, lambda i: T[i, k] * t(n, i, j)))),
                }[what]
            else:
                f = {
                    "basis": (lambda t, n, i, k: c.sum(J, lambda j: V[n, k, j] * t(n, i, j))),
                    "activation": (lambda t, n, k, j: c.sum(I, lambda i: T[n, i, k] * t(n, i, j))),
                }[what]
            cur, new = {"basis": T, "activation": V}[what], getattr(s.m, what)
            c.forall("psd_scalar_step hypothesis: t'^2 tr(R^-1 S) = t^2 tr(R^-1 X R^-1 S)", list(cur.shape), lambda *ix: (new[ix] ** 2 * f(t2, *ix), cur[ix] ** 2 * f(t1, *ix)))

    @contract("descent: GaussMNMF update_spatial, %s bases" % pn, "C07", "bss.mnmf.GaussMNMF.update_spatial bss.mnmf.GaussMNMF.compute_loss", samples=6)
    def matrix(c, part=part):
        """H' P H' = H Q H through the contract of the geometric mean (second kind: G A G = B)"""
        s = c16_mnmf.Setup(c, part, "none")
        if not c.symbolic:
            decreases(c, s.m, s.m.update_spatial, tol=1e-6)
            return
        s.psd_stub(exact=True)
        M, N, I, J = s.M, s.N, s.I, s.J
        calls = []

        def gm(a):
            calls.append((a, c.array("G", tuple(a["A"].shape), "c", pd=True)))
            return calls[-1][1]

        Rec(c, s.md, "gmeanmh", gm)
        s.m.update_spatial()
        if len(calls) != 1:
            raise NotImplementedError
        a, G = calls[0]
        ri = lambda i, j: c.inv(M, lambda x, y: s.R(i, j, x, y))
        Pm = lambda n, i, x, y: c.sum(J, lambda j: s.lam(n, i, j) * ri(i, j)(x, y))
        rxr = lambda i, j, x, y: c.sum(M, lambda u: c.sum(M, lambda w: ri(i, j)(x, u) * s.XX[i, j, u, w] * ri(i, j)(w, y)))
        Q = lambda n, i, x, y: c.sum(J, lambda j: s.lam(n, i, j) * rxr(i, j, x, y))
        HQH = lambda n, i, x, y: c.sum(M, lambda u: c.sum(M, lambda w: s.H[n, i, x, u] * Q(n, i, u, w) * s.H[n, i, w, y]))
        c.ensure("second kind: G A G = B", a["type"] == 2)
        c.forall("psd_matrix_step hypothesis: A = P", [N, I, M, M], lambda *ix: (a["A"][ix], Pm(*ix)))
        c.forall("psd_matrix_step hypothesis: B = H Q H", [N, I, M, M], lambda *ix: (a["B"][ix], HQH(*ix)))
        c.forall("the solution becomes the spatial covariance", [N, I, M, M], lambda *ix: (s.m.spatial[ix], G[ix]))


# ---------------------------------------------------------------- IPSDTA
for rem in (False, True):
    rn = "remainder" if rem else "even blocks"
    for cls in ("GaussIPSDTA", "TIPSDTA"):

        @contract("descent: %s steps, %s" % (cls, rn), "C07", "bss.ipsdta.%s.update_basis_mm bss.ipsdta.%s.update_activation_mm bss.ipsdta.%s.update_spatial_model bss.ipsdta.%s.compute_loss" % ((cls,) * 4), samples=6)
        def ipsdta(c, rem=rem, cls=cls):
            s = c04_ipsdta.Setup(c, cls, rem, frames=8, flooring_fn=None)
            if not c.symbolic:
                for nm in ("update_activation_mm", "update_basis_mm", "update_spatial_model"):
                    m = copy.deepcopy(s.m)
                    decreases(c, m, getattr(m, nm), label="objective does not increase in %s" % nm, tol=1e-6)
                return
            s.covariance()
            s.m.update_activation_mm()
            new = s.m.activation

            def eq(n, q, j):
                a, b = s.activation_ratio(n, q, j)
                return new[n, q, j] ** 2 * b, s.V[n, q, j] ** 2 * a

            c.forall("psd_scalar_step hypothesis: v'^2 sum of tr(R^-1 T) = v^2 sum of tr(R^-1 X R^-1 T)", [s.N, s.K, s.J], eq)
            if cls == "GaussIPSDTA":
                return
            # slope of ((nu + 2I)/2) log(1 + 2/nu q), the factor psd_*_step and vcd_step apply to y y^H
            g, c0 = (s.nu + 2 * c.num(s.I)) / 2, 2 / s.nu
            c.forall("weight is the slope of the Student-t density", [s.N, s.J], lambda n, j: (s.weight(n, j) * (1 + c0 * s.yRy(n, j)), g * c0))


@contract("descent: update_by_block_decomposition_vcd", "C07", "bss._update_spatial_model.update_by_block_decomposition_vcd", samples=10, timeout=500)
def vcd(c):
    """the updated row lies on the branch gamma^H U^-1 g <= 0 of its two stationary points (vcd_step; stationarity itself is the
    C03 contract of the same function)"""
    K, P, N = c.dim("K"), c.dim("P"), c.dim("N", 2)
    f = c.load(SM).update_by_block_decomposition_vcd
    if not c.symbolic:
        J = 3 * N * P
        W = c.array("W", (K, P, N, N), "c", invertible=True)
        x, L = c.array("x", (K, P, J, N), "c"), c.array("L", (K, N, J, P, P), "c", pd=True)
        # R_{n,pq} = mean_j (L_nj)_{qp} x_pj x_qj^H
        R = np.einsum("knjqp,kpja,kqjb->kpqnab", L, x, x.conj()) / J

        def obj(V):
            y = np.einsum("kpna,kpja->knjp", V, x)
            return np.einsum("knjp,knjpq,knjq->", y.conj(), L, y).real / J - 2 * np.linalg.slogdet(V)[1].sum()

        Q = f(W.copy(), R)
        a, b = obj(W), obj(Q)
        c.ensure("objective of the filters does not increase", b <= a + 1e-8 * (1 + abs(a)), "%r -> %r" % (a, b))
        return
    W = c.array("W", (K, P, N, N), "c", invertible=True)
    Ud = c.array("U", (K, P, N, N, N), "c", pd=True)
    Ro = c.array("Roff", (K, P, P, N, N, N), "c")
    R = c.fresh_from((K, P, P, N, N, N), lambda k, i, j, n, a, b: c.delta(i, j) * Ud[k, i, n, a, b] + (1 - c.delta(i, j)) * Ro[k, i, j, n, a, b], "c")

    def check(cx, n, old, new):
        B, i = new["W"], sp.i
        ga = lambda k, a: cx.sum(P, lambda j: (1 - cx.delta(i, j)) * cx.sum(N, lambda b: Ro[k, i, j, n, a, b] * cx.conj(B[k, j, n, b])))
        g = lambda k, a: cx.sum(N, lambda b: Ud[k, i, n, a, b] * cx.conj(B[k, i, n, b])) + ga(k, a)
        ui = lambda k: cx.inv(N, lambda a, b: Ud[k, i, n, a, b])
        # eta = U^-1 W^-1 e_n with the filter before the update, xi = eta^H U eta, s = |eta^H gamma|^2
        wi = lambda k: cx.inv(N, lambda a, b: old["W"][k, i, a, b])
        eta = lambda k, a: cx.sum(N, lambda b: ui(k)(a, b) * wi(k)(b, n))
        xi = lambda k: cx.re(cx.sum(N, lambda a: cx.conj(eta(k, a)) * wi(k)(a, n)))
        xh = cx.fresh_from((K,), lambda k: cx.sum(N, lambda a: cx.conj(eta(k, a)) * ga(k, a)), "c")
        div = cx.np.where(xh == 0, 1, xh)
        sq = lambda k: cx.abs2(xh[k])
        beta = lambda k: cx.sum(N, lambda a: cx.conj(ga(k, a)) * cx.sum(N, lambda b: ui(k)(a, b) * g(k, b)))
        cx.forall("vcd_step hypothesis: branch of the stationary point", [K], lambda k: (2 * xi(k) * beta(k), sq(k) - sq(k) * cx.sqrt(1 + 4 * xi(k) / cx.abs2(div[k]))))

    st = {"W": W}
    sp = LoopSpec(dict(st), check=lambda cx, k, old, new: None)
    sp2 = LoopSpec(dict(st), check=check)
    c.loops(sp, sp2)
    f(W, R)


# ---------------------------------------------------------------- mixture model
@contract("descent: CACGMM update_once", "C07", "bss.cacgmm.CACGMM.update_once bss.cacgmm.CACGMM.compute_loss", samples=8)
def em(c):
    """em_step: mixing weights that sum to one, their update and that of the covariances from the memberships of the current
    parameters are the supporting contracts; here: the M step's covariance equation in the form of the lemma"""
    s = c17_cacgmm.Setup(c, floor="none", frames=8)
    N, M, I, J = s.N, s.M, s.I, s.J
    if not c.symbolic:
        c.require(J >= 2 * M)
        s.m.mixing = s.m.mixing / s.m.mixing.sum(axis=0)
        decreases(c, s.m, s.m.update_once, tol=1e-7)
        return
    Rec(c, s.md, "to_psd", lambda a: a["X"])
    s.m.update_parameters(flooring_fn=s.m.flooring_fn)
    B, q = s.m.covariance, s.qa()
    c.forall(
        "em_step hypothesis: (sum gamma) B' = M sum gamma/q z z^H",
        [N, I, M, M],
        lambda n, i, a, b: (c.sum(J, lambda j: s.gamma[n, i, j]) * B[n, i, a, b], M * c.sum(J, lambda j: s.gamma[n, i, j] / q[n, i, j] * s.Z[a, i, j] * c.conj(s.Z[b, i, j]))),
    )
