"""Drivers of the determined separation methods: what is returned is the final filter applied to the caller's mixture (C01),
scale restoration multiplies the final filter by the documented factor (C02), the iteration is called with the caller's
arguments from the documented initial state (C08), nothing of the caller's is written or shared (C09).

Symbolically the iteration itself is replaced by its contract: it leaves *some* filter (or, in signal mode, *some*
frame-independent linear transform of the mixture) and a stale output behind."""

import numpy as np

from vc.registry import contract
from vc.cutil import OpaqueFn, Rec

ICA, FD, IV, IL, PDS, ADMM, IPS = ("ssspy.bss." + m for m in ("ica", "fdica", "iva", "ilrma", "pdsbss", "admmbss", "ipsdta"))


def g_laplace(y):
    return 2 * np.linalg.norm(y, axis=1)


def s_laplace(y):
    return y / np.maximum(np.linalg.norm(y, axis=1, keepdims=True), 1e-10)


def grad_ica(c):
    return dict(contrast_fn=lambda y: np.log(np.cosh(y)), score_fn=np.tanh)


def fast_ica(c):
    return dict(grad_ica(c), d_score_fn=lambda y: 1 - np.tanh(y) ** 2)


def grad_fd(c):
    return dict(contrast_fn=lambda y: 2 * np.abs(y), score_fn=lambda y: y / np.maximum(np.abs(y), 1e-10))


def aux_fd(c, alg="IP"):
    return dict(spatial_algorithm=alg, contrast_fn=lambda y: 2 * np.abs(y), d_contrast_fn=lambda y: 2 * np.ones_like(y))


def grad_iva(c):
    return dict(contrast_fn=g_laplace, score_fn=s_laplace)


def aux_iva(alg):
    return lambda c: dict(spatial_algorithm=alg, contrast_fn=g_laplace, d_contrast_fn=lambda r: 2 * np.ones_like(r))


def fast_iva(c):
    return dict(contrast_fn=g_laplace, d_contrast_fn=lambda r: 2 * np.ones_like(r), dd_contrast_fn=lambda r: 0 * r)


def faster_iva(c):
    return dict(contrast_fn=g_laplace, d_contrast_fn=lambda r: 2 * np.ones_like(r))


def prox_l1(y, step_size=1):
    return y * np.maximum(0, 1 - step_size / np.maximum(np.abs(y), 1e-10))


def pen_l1(y):
    return np.sum(np.abs(y))


def prox_kw(c):
    return dict(penalty_fn=pen_l1, prox_penalty=prox_l1)


def mask_kw(c):
    return dict(penalty_fn=pen_l1, mask_fn=lambda y: np.abs(y) / (1 + np.abs(y)))


def prox_iva(c):
    return dict(contrast_fn=g_laplace, prox_penalty=prox_l1)


CASES = []


def case(mod, cls, kw=lambda c: {}, mode="filter", tag="", scale=True, extra=None):
    CASES.append((mod, cls, kw, mode, tag, scale, extra))


for nat in ("Grad", "NaturalGrad"):
    case(ICA, nat + "ICA", grad_ica, scale=False)
    case(ICA, nat + "LaplaceICA", scale=False)
    case(FD, nat + "FDICA", grad_fd)
    case(FD, nat + "LaplaceFDICA")
    case(IV, nat + "IVA", grad_iva)
    case(IV, nat + "LaplaceIVA")
    case(IV, nat + "GaussIVA")
case(ICA, "FastICA", fast_ica, mode="white", scale=False)
for alg in ("IP", "IP1", "IP2"):
    case(FD, "AuxFDICA", lambda c, alg=alg: aux_fd(c, alg), tag=alg)
    case(FD, "AuxLaplaceFDICA", lambda c, alg=alg: dict(spatial_algorithm=alg), tag=alg)
case(IV, "FastIVA", fast_iva, mode="white")
case(IV, "FasterIVA", faster_iva, mode="white")
for alg in ("IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"):
    md = "filter" if alg.startswith("IP") and alg != "IPA" else "signal"
    case(IV, "AuxIVA", aux_iva(alg), mode=md, tag=alg)
    case(IV, "AuxLaplaceIVA", lambda c, alg=alg: dict(spatial_algorithm=alg), mode=md, tag=alg)
    case(IV, "AuxGaussIVA", lambda c, alg=alg: dict(spatial_algorithm=alg), mode=md, tag=alg)


def nmf(part):
    def extra(c, N, I, J):
        K = c.dim("K")
        if part:
            return K, dict(basis=c.array("T", (I, K), "f", sign="pos"), activation=c.array("V", (K, J), "f", sign="pos"), latent=c.array("L", (N, K), "f", sign="pos"))
        return K, dict(basis=c.array("T", (N, I, K), "f", sign="pos"), activation=c.array("V", (N, K, J), "f", sign="pos"))

    return extra


for alg in ("IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"):
    md = "filter" if alg.startswith("IP") and alg != "IPA" else "signal"
    for part in (False, True):
        t = alg + (" partitioned" if part else "")
        case(IL, "GaussILRMA", lambda c, alg=alg, part=part: dict(spatial_algorithm=alg, partitioning=part, normalization=False), mode=md, tag=t, extra=nmf(part))
        if alg != "IPA":
            case(IL, "TILRMA", lambda c, alg=alg, part=part: dict(spatial_algorithm=alg, partitioning=part, dof=5, normalization=False), mode=md, tag=t, extra=nmf(part))
            case(IL, "GGDILRMA", lambda c, alg=alg, part=part: dict(spatial_algorithm=alg, partitioning=part, beta=1.5, normalization=False), mode=md, tag=t, extra=nmf(part))
case(PDS, "PDSBSS", prox_kw)
case(PDS, "MaskingPDSBSS", mask_kw)
case(ADMM, "ADMMBSS", prox_kw)
case(ADMM, "MaskingADMMBSS", mask_kw)
case(IV, "PDSIVA", prox_iva)
case(IV, "ADMMIVA", prox_iva)


def psdtf(c, N, I, J):
    K = c.dim("K")
    return [K, 1], dict(basis=c.array("T", (N, K, 1, I, I), "c", pd=True), activation=c.array("V", (N, K, J), "f", sign="pos"))


case(IPS, "GaussIPSDTA", lambda c: dict(source_normalization=False), extra=psdtf)
case(IPS, "TIPSDTA", lambda c: dict(source_normalization=False, dof=5), extra=psdtf)


def expected_scale(c, option, ref, X, Wf, Y, N, J):
    """documented factor of source n in bin i: s(i, n)"""
    if not option:
        return lambda i, n: 1
    if option in (True, "projection_back"):
        if Wf is not None:
            return lambda i, n: c.inv(N, lambda a, b: Wf[i, a, b])(ref, n)
        # least squares on the separated signals: (X Y^H (Y Y^H)^-1)[ref, n]
        return lambda i, n: c.sum(N, lambda k: c.sum(J, lambda j: X[ref, i, j] * c.conj(Y(k, i, j))) * c.inv(N, lambda a, b: c.sum(J, lambda j: Y(a, i, j) * c.conj(Y(b, i, j))))(k, n))
    # minimal distortion: least-squares projection of the reference onto the source
    return lambda i, n: c.sum(J, lambda j: X[ref, i, j] * c.conj(Y(n, i, j))) / c.sum(J, lambda j: c.abs2(Y(n, i, j)))


OPTIONS = {"none": False, "default": True, "projection back": "projection_back", "minimal distortion": "minimal_distortion_principle"}


def num_inv(c):
    return None


def left_over(c, m, mode):
    """what an earlier call with another mixture leaves behind, apart from the filter and the source model it
    would resume from: none of it may reach this call's result"""
    shape = c.inputs["X"].shape
    kd = "f" if len(shape) == 2 else "c"
    m.input = c.array("earlier_input", shape, kd)
    m.output = c.array("earlier_output", shape, kd)
    if mode == "white":
        m.whitened_input = c.array("earlier_whitened", shape, kd)


def run_driver(c, mod, cls, kwf, mode, scale, extra, opt, perm, init, initial):
    md = c.load(mod)
    fam_ica = mod == ICA
    ips = mod == IPS
    N, J = c.dim("N", 2, nhi=3), c.dim("J", 2, nlo=8)
    I = None if fam_ica else c.dim("I", 1, nlo=2)
    if not c.symbolic:
        c.require(J >= 2 * N and N <= 3)
    kd = "f" if fam_ica else "c"
    X = c.array("X", (N, J) if I is None else (N, I, J), kd)
    ref = 0
    kw = dict(kwf(c), record_loss=False)
    if scale:
        ref = c.index("ref", N)
        kw.update(scale_restoration=opt)
        if opt or mod in (FD,):
            kw["reference_id"] = ref
    if mod == FD:
        kw["permutation_alignment"] = perm
    state = {}
    args = []
    if extra is not None:
        K, state = extra(c, N, I, J)
        args = K if isinstance(K, list) else [K]
    W0 = None
    if init:
        W0 = c.array("W0", (N, N) if I is None else (I, N, N), kd, invertible=True)
        state["demix_filter"] = W0
    log = []
    make = lambda **k: getattr(md, cls)(*args, **dict(kw, **k))
    m = make(callbacks=None if c.symbolic else (lambda o: log.append(1)))
    calls = []
    if c.symbolic:
        base = c.load("ssspy.bss.base").IterativeMethodBase
        W1 = c.array("W1", (N, N) if I is None else (I, N, N), kd, invertible=True)
        S0 = c.array("stale", X.shape, kd)
        if mode == "white":
            Z = c.array("Z", X.shape, kd)
            c.stub(md, "whiten", lambda x: Z.copy())
        src = Z if mode == "white" else X
        if I is None:
            y1 = lambda n, j: c.sum(N, lambda a: W1[n, a] * src[a, j])
        else:
            y1 = lambda n, i, j: c.sum(N, lambda a: W1[i, n, a] * src[a, i, j])

        def iterate(self, *a, n_iter=100, initial_call=True, **k):
            calls.append((self, a, n_iter, initial_call, k))
            c.forall("iteration starts with the caller's mixture", list(X.shape), lambda *ix: (self.input[ix], X[ix]))
            if mode == "signal":
                Y0 = self.output
                w0 = (lambda i, n, a: W0[i, n, a]) if init else (lambda i, n, a: c.delta(n, a))
                c.forall("iteration starts from the initial filter applied to the mixture", [N, I, J], lambda n, i, j: (Y0[n, i, j], c.sum(N, lambda a: w0(i, n, a) * X[a, i, j])))
                c.ensure("no filter is kept in signal mode", self.demix_filter is None)
                self.output = c.fresh_from(X.shape, y1, "c")
            else:
                D = self.demix_filter
                if init:
                    c.forall("iteration starts from the caller's filter", list(D.shape), lambda *ix: (D[ix], W0[ix]))
                    c.not_shared("caller's filter is copied", D, W0)
                else:
                    c.shape("shape of the default filter", D, (N, N) if I is None else (I, N, N))
                    c.forall("iteration starts from the identity", list(D.shape), lambda *ix: (D[ix], c.delta(ix[-2], ix[-1])))
                self.demix_filter = W1.copy()
                self.output = S0
            for k2, v in state.items():
                if k2 != "demix_filter":
                    c.forall("iteration starts from the caller's %s" % k2, list(v.shape), lambda *ix: (getattr(self, k2)[ix], v[ix]))
                    c.not_shared("caller's %s is copied" % k2, getattr(self, k2), v)
            c.not_shared("caller's mixture is copied", self.input, X)

        c.stub(base, "__call__", iterate)
        n_iter = c.dim("n_iter", 0)
        Wp = None
        if mod == FD:
            pc = []

            def solver(seq, *a, flooring_fn=None, overwrite=True, **k):
                if len(a) != 1:
                    raise NotImplementedError
                pc.append(1)
                c.forall("alignment receives the separated spectrograms", [I, N, J], lambda i, n, j: (seq[i, n, j], y1(n, i, j)))
                c.forall("alignment receives the filter", [I, N, N], lambda *ix: (a[0][ix], W1[ix]))
                Q = c.array("W2", (I, N, N), "c", invertible=True)
                return c.fresh_from((I, N, J), lambda i, n, j: c.sum(N, lambda b: Q[i, n, b] * X[b, i, j]), "c"), Q

            c.stub(md, "correlation_based_permutation_solver", solver)
        left_over(c, m, mode)
        Y = m(X, n_iter=n_iter, initial_call=initial, **state)
        if len(calls) != 1:
            raise NotImplementedError
        slf, a, n, ic, k = calls[0]
        if a or k:
            raise NotImplementedError
        c.ensure_int("number of iterations is the caller's", n == n_iter)
        c.ensure("initial evaluation as requested", ic is initial)
        if mod == FD:
            c.ensure("permutation alignment runs exactly when requested", len(pc) == (1 if perm else 0))
            if perm:
                W1 = c.inputs["W2"]
    else:
        n_iter = c.rng.integers(0, 3)
        if mode == "signal" and "ISS2" in str(kw.get("spatial_algorithm")):
            c.require(N % 2 == 0)
        rng = dict(rng=np.random.default_rng(0)) if mod in (IL, IPS) else {}
        m = make(callbacks=lambda o: log.append(1), **rng)
        left_over(c, m, mode)
        Y = m(X, n_iter=int(n_iter), initial_call=initial, **state)
        c.ensure("callbacks: one per iteration plus the initial one when requested", len(log) == n_iter + (1 if initial else 0))
        # same iterations without scale restoration
        q = make(**dict(rng, scale_restoration=False) if scale else rng)
        Y1 = q(X, n_iter=int(n_iter), initial_call=initial, **state)
        if mod == FD and perm:
            # the aligned filter is what the alignment routine makes of the unaligned one
            u = make(scale_restoration=False, permutation_alignment=False)
            Yu = u(X, n_iter=int(n_iter), initial_call=initial, **state)
            solver = c.load("ssspy.algorithm.permutation_alignment").correlation_based_permutation_solver
            _, Wu = solver(Yu.transpose(1, 0, 2).copy(), u.demix_filter.copy(), flooring_fn=u.flooring_fn)
            c.forall("permutation alignment runs exactly when requested (filters)", [I, N, N], lambda *ix: (q.demix_filter[ix], Wu[ix]))
        src = m.whitened_input if mode == "white" else X
        if mode == "signal":
            # a frame-independent transform of the mixture exists: solve for it
            W1 = np.stack([Y1[:, i] @ np.linalg.pinv(X[:, i]) for i in range(I)])
        else:
            W1 = q.demix_filter
        lim = 1e4
        c.require(all(np.linalg.cond(w) < lim for w in (W1 if I is not None else [W1])))
        if I is None:
            y1 = lambda n, j: c.sum(N, lambda a: W1[n, a] * src[a, j])
        else:
            y1 = lambda n, i, j: c.sum(N, lambda a: W1[i, n, a] * src[a, i, j])
        c.forall("frame-independent linear transform", list(X.shape), lambda *ix: (Y1[ix], y1(*ix)))
    Y1f = (lambda n, i, j: c.sum(N, lambda a: W1[i, n, a] * src[a, i, j])) if I is not None else None
    c.shape("one signal per source", Y, X.shape)
    c.forall("returned array is the stored estimate", list(X.shape), lambda *ix: (Y[ix], m.output[ix]))
    if I is None:
        c.forall("output is the final filter applied to the mixture", [N, J], lambda n, j: (Y[n, j], c.sum(N, lambda a: m.demix_filter[n, a] * src[a, j])))
        c.forall("final filter is the one the iteration left", [N, N], lambda n, a: (m.demix_filter[n, a], W1[n, a]))
    else:
        s = expected_scale(c, opt if scale else False, ref, X, None if mode != "filter" else W1, Y1f, N, J)
        if mode == "signal":
            c.ensure("no filter is kept in signal mode", m.demix_filter is None)
            c.forall("output is a frame-independent scaling of the separated signals", [N, I, J], lambda n, i, j: (Y[n, i, j], s(i, n) * Y1f(n, i, j)))
        else:
            W2 = m.demix_filter
            c.forall("output is the final filter applied to the mixture", [N, I, J], lambda n, i, j: (Y[n, i, j], c.sum(N, lambda a: W2[i, n, a] * src[a, i, j])))
            c.forall("scale restoration multiplies each filter row by the documented factor", [I, N, N], lambda i, n, a: (W2[i, n, a], s(i, n) * W1[i, n, a]))
    c.unchanged("caller's mixture not modified", X)
    c.not_shared("caller's mixture not shared", m.input, X)
    c.not_shared("caller's mixture not shared with the output", m.output, X)
    for k2, v in state.items():
        c.unchanged("caller's %s not modified" % k2, v)
        if getattr(m, k2) is not None:
            c.not_shared("caller's %s not shared" % k2, getattr(m, k2), v)


for mod, cls, kwf, mode, tag, scale, extra in CASES:
    opts = list(OPTIONS) if scale else ["none"]
    perms = (True, False) if mod == FD else (False,)
    for on in opts:
        for perm in perms:
            nm = "%s%s driver" % (cls, " " + tag if tag else "")
            if scale:
                nm += ", scale restoration: " + on
            if mod == FD:
                nm += ", permutation alignment" if perm else ", no alignment"

            init = (len(on) + len(cls) + perm) % 3 != 0

            @contract(nm, "C01 C02 C08 C09" + (" C18" if perm else ""), "bss.%s.%s.__call__" % (mod.split(".")[-1], cls), samples=3)
            def driver(c, a=(mod, cls, kwf, mode, scale, extra, OPTIONS[on], perm, init, init)):
                run_driver(c, *a)
