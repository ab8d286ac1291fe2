"""Monotone descent (C07).

The chain of the argument, every link machine-checked on each run:
  1. contracts on the real functions (here symbolically, and the C03/C04/C05/C06 contracts included as supporting
     obligations): the equations each block update satisfies, in exactly the form of the hypotheses of the Lean lemmas;
  2. Lean lemmas (lean/*.lean): from those equations, the objective does not increase in that block step;
  3. an iteration is a composition of such steps and of normalisations that leave the objective unchanged.
The same contracts run the real code and compare the objective before and after each step.
What is not covered by the lemmas (IPA's inexactly solved quadratic programme, partitioned memberships) is checked by bounded
loss histories, labelled bounded. The matrix-valued models are in c07_matrix.py.
"""

import numpy as np

from contracts.c03_spatial import SM, eigh2_contract
from contracts.c04_ilrma import MODELS, Setup
from contracts.c06_iva import FD, IV, mk
from contracts.c16_mnmf import Fast
from vc.cutil import Rec
from vc.registry import bounded, contract, lean, support

lean("C07", "Descent.lean", "nmf_step nmf_step_t upd_of_root")
lean("C07", "Spatial.lean", "ip_step iss_step ip2_step iss2_step")
lean("C07", "Majorize.lean", "majorize tangent_laplace tangent_gauss variance_step tangent_student tangent_ggd")
# hypotheses of the lemmas discharged by contracts of other properties
support("C07", r"^update_by_(ip1|iss1|ip2|iss2)")
support("C07", r"^(AuxLaplaceFDICA|AuxLaplaceIVA|AuxGaussIVA) .*(contrast|update_once)")
support("C07", r"^(Aux(FDICA|IVA)|AuxIVA signal mode) compute_loss")
support("C07", r"^(Gauss|T|GGD)ILRMA (update_(basis|activation)_mm|compute_loss|normalize|update_spatial_model) ?.*domain=any")
support("C07", r"^FastGaussMNMF (update_|compute_loss|power norm)")


def decreases(c, m, step, label="objective does not increase in this step", tol=1e-8):
    """real code only: objective before and after"""
    L0 = m.compute_loss()
    step()
    L1 = m.compute_loss()
    if not (np.isfinite(L0) and np.isfinite(L1)):
        c.require(False)
    c.ensure(label, L1 <= L0 + tol * (1 + abs(L0)), "%.12g -> %.12g" % (L0, L1))


def student(c, s, N, I, J, L, inv):
    """1/inv is the slope g c0/(1 + c0 |y|^2) of g log(1 + c0 |y|^2), g = 1 + nu/2, c0 = 2/(nu L^(2/p))"""
    g, c0 = 1 + s.nu / 2, lambda *ix: 2 / s.nu / c.pw(L(*ix), 2 / s.p)
    c.forall("weight is the slope of the Student-t contrast", [N, I, J], lambda *ix: (g * c0(*ix) * inv(*ix), 1 + c0(*ix) * c.abs2(s.y(*ix))))


# ---------------------------------------------------------------- source models: hypotheses of nmf_step / nmf_step_t
for model, p in MODELS:
    for part in (False, True):
        for which in ("basis", "activation"):
            if p == "1":
                continue

            @contract("descent: %sILRMA update_%s_mm domain=%s%s" % (model, which, p, " partitioned" if part else ""), "C07", "bss.ilrma.%sILRMA.update_%s_mm bss.ilrma.%sILRMA.compute_loss" % (model, which, model), samples=8)
            def src(c, model=model, p=p, part=part, which=which):
                s = Setup(c, model, part, p, floor=None)
                m = s.m
                step = getattr(m, "update_%s_mm" % which)
                if not c.symbolic:
                    decreases(c, m, step)
                    return
                N, I, J, K = s.N, s.I, s.J, s.K
                T, V, Z = s.T, s.V, s.Z
                L = s.lam(T, V, Z)
                pp = s.p
                step()
                new = getattr(m, which)
                q = s.beta / pp if model == "GGD" else 2 / pp
                y2 = lambda *ix: c.abs2(s.y(*ix))
                # the first term's weight: a c_e L^(-q-1) with a the power (Gauss, GGD) or the tangent weight times the power (Student-t)
                if model == "Gauss":
                    qA, B = (lambda *ix: y2(*ix) / c.pw(L(*ix), q + 1)), (lambda *ix: 1 / L(*ix))
                elif model == "T":
                    al = s.nu / (s.nu + 2)
                    inv = lambda *ix: al * c.pw(L(*ix), q) + (1 - al) * y2(*ix)
                    qA, B = (lambda *ix: y2(*ix) / (L(*ix) * inv(*ix))), (lambda *ix: 1 / L(*ix))
                    student(c, s, N, I, J, L, inv)
                else:
                    qA, B = (lambda *ix: s.beta / 2 * c.pw(c.abs(s.y(*ix)), s.beta) / c.pw(L(*ix), q + 1)), (lambda *ix: 1 / L(*ix))
                if part:
                    if which == "basis":
                        co = lambda f: lambda i, k: c.sum(N, lambda n: c.sum(J, lambda j: Z[n, k] * V[k, j] * f(n, i, j)))
                    else:
                        co = lambda f: lambda k, j: c.sum(N, lambda n: c.sum(I, lambda i: Z[n, k] * T[i, k] * f(n, i, j)))
                elif which == "basis":
                    co = lambda f: lambda n, i, k: c.sum(J, lambda j: V[n, k, j] * f(n, i, j))
                else:
                    co = lambda f: lambda n, k, j: c.sum(I, lambda i: T[n, i, k] * f(n, i, j))
                old = {"basis": T, "activation": V}[which]
                # both sides divided by b = 2/p; the (q+1)-th root of nmf_step's hypothesis (upd_of_root)
                e = pp / (pp + s.beta) if model == "GGD" else pp / (pp + 2)
                c.forall("exponent is 1/(q+1)", [1], lambda _: (e * (q + 1), 1))
                A_ = (lambda *ix: co(qA)(*ix)) 
                c.forall("nmf_step hypothesis: t' = t (q sum(a c/L^(q+1)) / sum(b c/L))^(1/(q+1))", s.dims(which), lambda *ix: (new[ix], old[ix] * c.pw(A_(*ix) / co(B)(*ix), e)))


# ---------------------------------------------------------------- spatial updates: the weighted covariance is the tangent of the contrast
FN = {"IP1": "update_by_ip1", "IP2": "update_by_ip2", "ISS1": "update_by_iss1", "ISS2": "update_by_iss2", "IPA": "update_by_ipa"}


def slope_link(c, a, signal, N, I, J, X, slope, one=False):
    """the quadratic form (filter mode) or the weights (signal mode) handed to the spatial update are the tangent's"""
    if signal:
        w = a["weight"]
        c.forall("majorize hypothesis: weight is the slope of the contrast in the power", [N, I, J], lambda n, i, j: (w[n, 0 if one else i, j], slope(n, i, j)))
        return
    U = a["weighted_covariance"]
    B = c.array("anyfilter", (I, N, N), "c")
    c.forall(
        "majorize hypothesis: quadratic form of any filter is the mean of slope times power",
        [I, N],
        lambda i, n: (
            c.sum(N, lambda p: c.sum(N, lambda q: B[i, n, p] * U[i, n, p, q] * c.conj(B[i, n, q]))),
            c.sum(J, lambda j: slope(n, i, j) * c.abs2(c.sum(N, lambda p: B[i, n, p] * X[p, i, j]))) / J,
        ),
    )


for model, p in MODELS:
    for part in (False, True):
        for alg in ("IP1", "IP2", "ISS1", "ISS2", "IPA"):
            if p == "1" or (alg == "IPA" and model != "Gauss"):
                continue

            @contract("descent: %sILRMA update_spatial_model %s domain=%s%s" % (model, alg, p, " partitioned" if part else ""), "C07", "bss.ilrma.%sILRMA.update_spatial_model_%s" % (model, alg.lower()), samples=8)
            def spat(c, model=model, p=p, part=part, alg=alg):
                s = Setup(c, model, part, p, alg=alg, floor=None, consistent=not c.symbolic)
                m, N, I, J = s.m, s.N, s.I, s.J
                if not c.symbolic:
                    c.require(J >= 2 * N + 2)
                    c.require(s.K >= 2 or not (part and alg in ("IP2", "ISS2")))
                    decreases(c, m, m.update_spatial_model, tol=1e-7)
                    return
                res = c.fresh_array("result", (N, I, J) if s.iss else (I, N, N), "c")
                r = Rec(c, s.md, FN[alg], lambda a: res)
                m.update_spatial_model()
                L = s.lam(s.T, s.V, s.Z)
                if model == "Gauss":
                    slope = lambda *ix: 1 / c.pw(L(*ix), 2 / s.p)
                elif model == "T":
                    al = s.nu / (s.nu + 2)
                    inv = lambda *ix: al * c.pw(L(*ix), 2 / s.p) + (1 - al) * c.abs2(s.y(*ix))
                    student(c, s, N, I, J, L, inv)
                    slope = lambda *ix: 1 / inv(*ix)
                else:
                    slope = lambda *ix: s.beta / 2 * c.pw(c.abs(s.y(*ix)), s.beta - 2) / c.pw(L(*ix), s.beta / s.p)
                slope_link(c, r.only(), s.iss, N, I, J, s.X, slope)


AUX = [("FDICA", "Laplace", "AuxLaplaceFDICA", FD, ("IP1", "IP2")), ("IVA", "Laplace", "AuxLaplaceIVA", IV, ("IP1", "IP2", "ISS1", "ISS2", "IPA")), ("IVA", "Gauss", "AuxGaussIVA", IV, ("IP1", "IP2", "ISS1", "ISS2", "IPA"))]

for fam, src_, cls, mod, algs in AUX:
    for alg in algs:

        @contract("descent: %s update_once %s" % (cls, alg), "C07", "bss.%s.%s.update_once bss.%s.%s.update_once_%s" % (mod.split(".")[-1], cls, mod.split(".")[-1], cls, alg.lower()), samples=10)
        def aux(c, fam=fam, src_=src_, cls=cls, mod=mod, alg=alg):
            if c.symbolic and alg == "IP2":
                # every pair's weights re-evaluated: the loop contract of C03 (included as support) states it
                return
            md, m, X, W, N, I, J = mk(c, fam, mod, cls, dict(spatial_algorithm=alg, flooring_fn=None))
            signal = alg in ("ISS1", "ISS2", "IPA")
            if not c.symbolic:
                c.require(N == 2 and J >= 8 or J >= 20 * N)
            m._reset(demix_filter=W)
            if not c.symbolic:
                if src_ == "Gauss":
                    m.update_source_model()
                decreases(c, m, m.update_once, tol=1e-7)
                return
            if signal:
                Y = c.array("Y", (N, I, J), "c")
                m.output = Y
                y = lambda n, i, j: Y[n, i, j]
            else:
                y = lambda n, i, j: c.sum(N, lambda a: W[i, n, a] * X[a, i, j])
            if src_ == "Gauss":
                m.variance = c.array("v", (N, J), "f", sign="pos")
            res = c.fresh_array("result", (N, I, J) if signal else (I, N, N), "c")
            r = Rec(c, md, FN[alg], lambda a: res)
            m.update_once()
            p2 = lambda n, j: c.sum(I, lambda i: c.abs2(y(n, i, j)))
            if fam == "FDICA":
                slope = lambda n, i, j: 1 / c.abs(y(n, i, j))
            elif src_ == "Laplace":
                slope = lambda n, i, j: 1 / c.sqrt(p2(n, j))
            else:
                v = m.variance
                slope = lambda n, i, j: 1 / v[n, j]
                c.forall("variance_step hypothesis: variance is the mean power of the state the iteration starts from", [N, J], lambda n, j: (v[n, j] * I, p2(n, j)))
            slope_link(c, r.only(), signal, N, I, J, X, slope, one=True)


# ---------------------------------------------------------------- pairwise updates: hypotheses of ip2_step / iss2_step
@contract("descent: update_by_ip2_one_pair", "C07", "bss._update_spatial_model.update_by_ip2_one_pair", samples=12)
def ip2pair(c):
    I, N = c.dim("I"), c.dim("N", 2)
    W = c.array("W", (I, N, N), "c", invertible=True)
    U = c.array("U", (I, N, N, N), "c", pd=True)
    m, n = c.index("m", N), c.index("n", N)
    c.require(m != n)
    md = c.load(SM)
    Up = U[:, (m, n), :, :]
    if not c.symbolic:
        R = md.update_by_ip2_one_pair(W, Up, pair=(m, n), flooring_fn=None)
        V = W.copy()
        V[:, (m, n), :] = R
        Q = lambda F: sum(np.real(F[i, k] @ U[i, k] @ F[i, k].conj()) for i in range(I) for k in (m, n)) - 2 * np.sum(np.linalg.slogdet(F)[1])
        c.ensure("auxiliary function does not increase", Q(V) <= Q(W) + 1e-7 * (1 + abs(Q(W))), "%r -> %r" % (Q(W), Q(V)))
        return
    state, args, sols = [], [], []
    stub = eigh2_contract(c, state)
    c.stub(md, "eigh2", lambda A, B, *a, **k: (args.append((A, B)), stub(A, B, *a, **k))[1])
    solve = md.solve

    def rec(A, b, *a, **k):
        r = solve(A, b, *a, **k)
        sols.append(r)
        return r

    c.stub(md, "solve", rec)
    R = md.update_by_ip2_one_pair(W, Up, pair=(m, n), flooring_fn=None)
    if len(state) != 1 or len(sols) != 2:
        raise NotImplementedError
    (lam, z), (A, B) = state[0], args[0]
    for t, (P, k, G) in enumerate(((sols[0], m, A), (sols[1], n, B))):
        nm = ("first", "second")[t]
        for s, o in ((0, m), (1, n)):
            c.forall("W U P selects coordinate %d of the pair (%s)" % (s, nm), [I, N], lambda i, l: (c.sum(N, lambda a: c.sum(N, lambda b: W[i, l, a] * U[i, k, a, b] * P[i, b, s])), c.delta(l, o)))
        for s in range(2):
            for t2 in range(2):
                c.forall(
                    "eigenproblem of the %s source is P^H U P, entry %d%d" % (nm, s, t2),
                    [I],
                    lambda i: (G[i, s, t2], c.sum(N, lambda a: c.sum(N, lambda b: c.conj(P[i, a, s]) * U[i, k, a, b] * P[i, b, t2]))),
                )
    c.forall("first row: eigenvector of the larger eigenvalue over its root", [I, N], lambda i, a: (R[i, 0, a] * c.sqrt(lam[i, 1]), c.conj(sols[0][i, a, 0] * z[i, 0, 1] + sols[0][i, a, 1] * z[i, 1, 1])))
    c.forall("second row: eigenvector of the smaller eigenvalue", [I, N], lambda i, a: (R[i, 1, a], c.conj(sols[1][i, a, 0] * z[i, 0, 0] + sols[1][i, a, 1] * z[i, 1, 0])))


@contract("descent: update_by_iss2 one pair", "C07", "bss._update_spatial_model.update_by_iss2", samples=12)
def iss2pair(c):
    I, N, J = c.dim("I"), c.dim("N", 2), c.dim("J", 2, nlo=8)
    Y = c.array("Y", (N, I, J), "c")
    ph = c.array("phi", (N, I, J), "f", sign="pos")
    md = c.load(SM)
    if not c.symbolic:
        ps = [tuple(int(x) for x in c.rng.choice(N, size=2, replace=False))]
        V = md.update_by_iss2(Y.copy(), ph, flooring_fn=None, pair_selector=lambda k: iter(ps))
        D = lambda A: sum(np.linalg.slogdet(A[:, i] @ Y[:, i].conj().T @ np.linalg.inv(Y[:, i] @ Y[:, i].conj().T))[1] for i in range(I))
        Q = lambda A: np.sum(np.mean(ph * np.abs(A) ** 2, -1)) - 2 * D(A)
        c.ensure("auxiliary function does not increase", Q(V) <= Q(Y) + 1e-7 * (1 + abs(Q(Y))), "%r -> %r" % (Q(Y), Q(V)))
        return
    state, args = [], []
    stub = eigh2_contract(c, state)
    c.stub(md, "eigh2", lambda A, B, *a, **k: (args.append((A, B)), stub(A, B, *a, **k))[1])
    m, n = c.index("m", N), c.index("n", N)
    c.require(m != n)
    V = md.update_by_iss2(Y, ph, flooring_fn=None, pair_selector=lambda k: [(m, n)])
    if len(state) != 1:
        raise NotImplementedError
    (lam, z), G = state[0], args[0]
    for t, k in enumerate((m, n)):
        for a, x in enumerate((m, n)):
            for b, y in enumerate((m, n)):
                c.forall(
                    "weighted Gram matrix of the pair, %s weight, entry %d%d" % (("first", "second")[t], a, b),
                    [I],
                    lambda i: (G[t][i, a, b] * J, c.sum(J, lambda j: ph[k, i, j] * Y[x, i, j] * c.conj(Y[y, i, j]))),
                )
    c.forall("first source: eigenvector of the smaller eigenvalue over its root", [I, J], lambda i, j: (V[m, i, j] * c.sqrt(lam[i, 0]), c.conj(z[i, 0, 0]) * Y[m, i, j] + c.conj(z[i, 1, 0]) * Y[n, i, j]))
    c.forall("second source: eigenvector of the larger eigenvalue", [I, J], lambda i, j: (V[n, i, j], c.conj(z[i, 0, 1]) * Y[m, i, j] + c.conj(z[i, 1, 1]) * Y[n, i, j]))


# ---------------------------------------------------------------- FastMNMF
for what in ("basis", "activation", "spatial", "diagonalizer"):
    for alg in ("IP1", "IP2") if what == "diagonalizer" else ("IP1",):

        @contract("descent: FastGaussMNMF update_%s%s" % (what, " " + alg if what == "diagonalizer" else ""), "C07", "bss.mnmf.FastGaussMNMF.update_%s bss.mnmf.FastGaussMNMF.compute_loss" % what, samples=8)
        def fast(c, what=what, alg=alg):
            s = Fast(c, "none", alg=alg)
            M, N, I, J, K = s.M, s.N, s.I, s.J, s.K
            step = getattr(s.m, "update_" + what)
            if not c.symbolic:
                c.require(J >= 2 * M + 2)
                decreases(c, s.m, step, tol=1e-7)
                return
            if what == "diagonalizer":
                new = c.array("Qnew", (I, M, M), "c")
                r = Rec(c, s.md, FN[alg], lambda a: new)
                step()
                slope_link(c, r.only(), False, M, I, J, s.X, lambda m, i, j: 1 / s.ld(i, m, j))
                return
            step()
            T, V, D = s.T, s.V, s.D
            A = lambda i, m, j: s.qx2(i, m, j) / s.ld(i, m, j) ** 2
            B = lambda i, m, j: 1 / s.ld(i, m, j)
            co = {
                "basis": lambda t, n, i, k: c.sum(J, lambda j: c.sum(M, lambda m: V[n, k, j] * D[i, n, m] * t(i, m, j))),
                "activation": lambda t, n, k, j: c.sum(I, lambda i: c.sum(M, lambda m: T[n, i, k] * D[i, n, m] * t(i, m, j))),
                "spatial": lambda t, i, n, m: c.sum(J, lambda j: s.lam(n, i, j) * t(i, m, j)),
            }[what]
            old, new = {"basis": T, "activation": V, "spatial": D}[what], getattr(s.m, what)
            c.forall("nmf_step hypothesis: t'^2 sum(c/L) = t^2 sum(a c/L^2)", list(old.shape), lambda *ix: (new[ix] ** 2 * co(B, *ix), old[ix] ** 2 * co(A, *ix)))


# ---------------------------------------------------------------- bounded: whole loss histories
def history(b, cid, make, shape, n_iter=8, seeds=2, call=None, tol=1e-8):
    """recorded losses of a run from a generic start do not increase"""
    for sd in range(seeds * (4 if b.tier == "thorough" else 1)):
        with b.case("%s seed %d" % (cid, sd)):
            rng = np.random.default_rng([b.seed, sd])
            X = (rng.standard_normal(shape) + 1j * rng.standard_normal(shape)) * np.exp(0.7 * rng.standard_normal(shape))
            m = make(rng)
            m(X, n_iter=n_iter) if call is None else call(m, X, n_iter)
            L = np.array(m.loss)
            b.check("one loss per iteration and the initial one", len(L) == n_iter + 1)
            if np.all(np.isfinite(L)):
                d = np.diff(L) / (1 + np.abs(L[:-1]))
                b.check("recorded objective never increases", bool(d.max() <= tol), "step %d: %r -> %r" % (int(d.argmax()), L[d.argmax()], L[d.argmax() + 1]))


WHY = "the whole update sequence, with the steps the lemmas do not cover, is compared on sampled runs"


@bounded("loss histories of the auxiliary-function ICA/IVA methods", "C07", "2 (all algorithms) and 3 sources, 4 bins, 60 frames, 8 iterations, 2 random mixtures per configuration", WHY)
def hist_iva(b):
    fd, iv = b.load(FD), b.load(IV)
    ps = b.load("ssspy.utils.select_pair")
    sels = (None, ps.sequential_pair_selector, ps.combination_pair_selector)
    for N in (2, 3):
        sh = (N, 4, 60)
        for alg in ("IP", "IP1", "IP2"):
            for sel in sels if alg == "IP2" else (None,):
                kw = dict(pair_selector=sel) if sel else {}
                history(b, "AuxLaplaceFDICA %d %s %s" % (N, alg, sel and sel.__name__), lambda r: fd.AuxLaplaceFDICA(spatial_algorithm=alg, permutation_alignment=False, scale_restoration=False, **kw), sh)
        for cls in ("AuxLaplaceIVA", "AuxGaussIVA"):
            for alg in ("IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"):
                for sel in sels if alg in ("IP2", "ISS2") else (None,):
                    kw = dict(pair_selector=sel) if sel else {}
                    history(b, "%s %d %s %s" % (cls, N, alg, sel and sel.__name__), lambda r: getattr(iv, cls)(spatial_algorithm=alg, scale_restoration=False, **kw), sh)


def hist_il(b, algs):
    il = b.load("ssspy.bss.ilrma")
    ps = b.load("ssspy.utils.select_pair")
    for cls, kw in (("GaussILRMA", {}), ("TILRMA", dict(dof=3)), ("TILRMA", dict(dof=100)), ("GGDILRMA", dict(beta=1.5)), ("GGDILRMA", dict(beta=0.5))):
        for alg in algs:
            if alg == "IPA" and cls != "GaussILRMA":
                continue
            for dom in (2, 1, 0.5, 1.7):
                for part in (False, True):
                    for norm in (False, "power", True) + (() if part else ("projection_back",)):
                        for sel in (None, ps.combination_pair_selector) if alg in ("IP2", "ISS2") else (None,):
                            k2 = dict(kw, pair_selector=sel) if sel else kw
                            for N in (2, 3):
                                if N == 3 and (dom != 2 or part):
                                    continue
                                history(
                                    b,
                                    "%s%s N=%d %s domain=%s partitioning=%s normalization=%s %s" % (cls, kw, N, alg, dom, part, norm, sel and sel.__name__),
                                    lambda r: getattr(il, cls)(2, spatial_algorithm=alg, domain=dom, partitioning=part, normalization=norm, scale_restoration=False, rng=r, **k2),
                                    (N, 3, 40),
                                    n_iter=6,
                                    seeds=1,
                                )


for grp in (("IP1", "IP"), ("IP2",), ("ISS1", "IPA"), ("ISS2",)):

    @bounded("loss histories of the ILRMA methods, %s" % "/".join(grp), "C07", "2 sources (3 for domain 2), 3 bins, 40 frames, 2 bases, domains 2, 1.7, 1, 0.5, 6 iterations, one random mixture per configuration", WHY)
    def hist_ilrma(b, grp=grp):
        hist_il(b, grp)


@bounded("loss histories of multichannel NMF, the mixture model and IPSDTA", "C07", "2-3 channels, 4-5 bins, 20-40 frames, 8 iterations, 2 random mixtures per configuration", "memberships of shared bases are renormalised over sources after their update, which no descent lemma covers; the rest repeats on whole runs what the lemmas give per step")
def hist_multi(b):
    mn, ca, ip = b.load("ssspy.bss.mnmf"), b.load("ssspy.bss.cacgmm"), b.load("ssspy.bss.ipsdta")
    for part, norm in ((False, False), (False, True), (True, False)):
        history(b, "GaussMNMF partitioning=%s normalization=%s" % (part, norm), lambda r: mn.GaussMNMF(2, partitioning=part, normalization=norm, rng=r), (3, 4, 20))
    for N in (2, 3):
        for alg in ("IP1", "IP2"):
            for norm in (False, True):
                history(b, "FastGaussMNMF N=%d %s normalization=%s" % (N, alg, norm), lambda r: mn.FastGaussMNMF(2, n_sources=N, diagonalizer_algorithm=alg, normalization=norm, rng=r), (3, 4, 40))
        for norm in (False, True):
            history(b, "CACGMM N=%d normalization=%s" % (N, norm), lambda r: ca.CACGMM(n_sources=N, normalization=norm, permutation_alignment=False, rng=r), (3, 4, 30))
    for nb in (1, 2, 5):
        for norm in (False, True):
            history(b, "GaussIPSDTA blocks=%d normalization=%s" % (nb, norm), lambda r: ip.GaussIPSDTA(2, nb, source_normalization=norm, scale_restoration=False, rng=r), (2, 5, 30), n_iter=6)
            history(b, "TIPSDTA blocks=%d normalization=%s" % (nb, norm), lambda r: ip.TIPSDTA(2, nb, dof=5, source_normalization=norm, scale_restoration=False, rng=r), (2, 5, 30), n_iter=6)
