"""Scale restoration and permutation alignment called directly (C01, C02, C18): whatever estimate was stored before,
afterwards the stored estimate is the stored filter applied to the stored mixture, and the filter is the old one times
the documented factor (or re-indexed); in signal mode the stored estimate is scaled by the documented factor."""
import itertools

import numpy as np

from vc.registry import contract

from contracts.c01_driver import CASES, FD, ICA, OPTIONS, expected_scale

HOW = {
    "restore_scale, default": (True, "restore_scale"),
    "restore_scale, projection back": ("projection_back", "restore_scale"),
    "restore_scale, minimal distortion": ("minimal_distortion_principle", "restore_scale"),
    "apply_projection_back": (True, "apply_projection_back"),
    "apply_minimal_distortion_principle": (True, "apply_minimal_distortion_principle"),
}


def run_methods(c, mod, cls, kwf, mode, extra, how):
    md = c.load(mod)
    N, J, I = c.dim("N", 2, nhi=3), c.dim("J", 2, nlo=8), c.dim("I", 1, nlo=2)
    if not c.symbolic:
        c.require(J >= 2 * N and N <= 3)
    X = c.array("X", (N, I, J), "c")
    W = c.array("W", (I, N, N), "c", invertible=True)
    ref = c.index("ref", N)
    opt, name = HOW[how]
    kw = dict(kwf(c), record_loss=False, scale_restoration=opt, reference_id=ref)
    state, args = {}, []
    if extra is not None:
        K, state = extra(c, N, I, J)
        args = K if isinstance(K, list) else [K]
    m = getattr(md, cls)(*args, **kw)
    m.input = X.copy()
    src = X
    if mode == "white":
        if c.symbolic:
            Z = c.array("Z", X.shape, "c")
            c.stub(md, "whiten", lambda x: Z.copy())
            src = Z
        else:
            src = c.load("ssspy.transform.whiten").whiten(X.copy())
    m._reset(demix_filter=W, **state)
    if mode != "signal":
        m.output = c.array("stale", X.shape, "c")  # an estimate that belongs to an earlier filter
    getattr(m, name)()
    y = lambda n, i, j: c.sum(N, lambda a: W[i, n, a] * src[a, i, j])
    kind = {"apply_projection_back": True, "apply_minimal_distortion_principle": "minimal_distortion_principle"}.get(name, opt)
    s = expected_scale(c, kind, ref, X, W if mode == "filter" else None, y, N, J)
    Y = m.output
    c.shape("one signal per source", Y, X.shape)
    if mode == "signal":
        c.ensure("no filter is kept in signal mode", m.demix_filter is None)
        c.forall("the stored estimate is scaled by the documented factor", [N, I, J], lambda n, i, j: (Y[n, i, j], s(i, n) * y(n, i, j)))
    else:
        W2 = m.demix_filter
        c.forall("stored estimate is the stored filter applied to the mixture", [N, I, J], lambda n, i, j: (Y[n, i, j], c.sum(N, lambda a: W2[i, n, a] * src[a, i, j])))
        c.forall("each filter row is multiplied by the documented factor", [I, N, N], lambda i, n, a: (W2[i, n, a], s(i, n) * W[i, n, a]))
    c.unchanged("mixture not modified", X)
    c.unchanged("given filter not modified", W)
    c.forall("stored mixture is kept", list(X.shape), lambda *i: (m.input[i], X[i]))


for mod, cls, kwf, mode, tag, scale, extra in CASES:
    if not scale or "partitioned" in tag or tag in ("IP1", "ISS1", "ISS2") or (cls not in ("GaussILRMA", "AuxIVA") and tag == "IP2"):
        continue  # restoration does not depend on the spatial algorithm beyond its mode
    for how in HOW:

        @contract("%s%s %s called directly" % (cls, " " + tag if tag else "", how), "C01 C02", "bss.%s.%s.%s" % (mod.split(".")[-1], cls, HOW[how][1]), samples=2)
        def direct(c, a=(mod, cls, kwf, mode, extra, how)):
            run_methods(c, *a)


for mod, cls, kwf, mode, tag, scale, extra in CASES:
    if mod != FD:
        continue
    for name in ("solve_permutation", "solve_permutation_by_correlation"):

        @contract("%s%s %s called directly" % (cls, " " + tag if tag else "", name), "C01 C18", "bss.fdica.%s.%s" % (cls, name), samples=3)
        def align(c, mod=mod, cls=cls, kwf=kwf, name=name):
            md = c.load(mod)
            N, J, I = c.dim("N", 2, nhi=3), c.dim("J", 2, nlo=8), c.dim("I", 1, nlo=2)
            X = c.array("X", (N, I, J), "c")
            W = c.array("W", (I, N, N), "c", invertible=True)
            m = getattr(md, cls)(**dict(kwf(c), record_loss=False, scale_restoration=False, permutation_alignment=True))
            m.input = X.copy()
            m._reset(demix_filter=W)
            m.output = c.array("stale", X.shape, "c")
            y = lambda n, i, j: c.sum(N, lambda a: W[i, n, a] * X[a, i, j])
            if c.symbolic:
                pc = []

                def solver(seq, *a, flooring_fn=None, overwrite=True, **k):
                    if len(a) != 1:
                        raise NotImplementedError
                    pc.append(1)
                    c.forall("alignment receives the separated spectrograms", [I, N, J], lambda i, n, j: (seq[i, n, j], y(n, i, j)))
                    c.forall("alignment receives the filter", [I, N, N], lambda *ix: (a[0][ix], W[ix]))
                    Q = c.array("W2", (I, N, N), "c", invertible=True)
                    return c.fresh_from((I, N, J), lambda i, n, j: c.sum(N, lambda b: Q[i, n, b] * X[b, i, j]), "c"), Q

                c.stub(md, "correlation_based_permutation_solver", solver)
            getattr(m, name)()
            W2, Y = m.demix_filter, m.output
            if c.symbolic:
                if len(pc) != 1:
                    raise NotImplementedError
                Q = c.inputs["W2"]
                c.forall("the stored filter is the aligned one", [I, N, N], lambda *ix: (W2[ix], Q[ix]))
            else:
                for i in range(I):
                    c.ensure("bin %d: the filter rows are permuted" % i, any(np.array_equal(W2[i], W[i][list(p)]) for p in itertools.permutations(range(N))))
            c.forall("stored estimate is the stored filter applied to the mixture", [N, I, J], lambda n, i, j: (Y[n, i, j], c.sum(N, lambda a: W2[i, n, a] * X[a, i, j])))
            c.unchanged("mixture not modified", X)
            c.unchanged("given filter not modified", W)
