"""A real-valued initial filter (np.eye, say) is an initial filter like any other: the iterations that follow are those from
the same numbers given as complex ones, so that the in-place row updates keep their imaginary parts (C03, and hence C07).
Bounded: the element type of an array is outside the terms of the prover, whose values are mathematical complex numbers."""

import numpy as np

from vc.registry import bounded

WHY = "element types (real array, complex rows written into it) are machine representation; the symbolic contracts compute with complex numbers"


def _laplace(y):
    return 2 * np.linalg.norm(y, axis=1)


def _methods(b):
    iva, fdica, il, ip, mn = (b.load("ssspy.bss." + m) for m in ("iva", "fdica", "ilrma", "ipsdta", "mnmf"))
    g = lambda: np.random.default_rng(3)
    for alg in ("IP", "IP1", "IP2"):
        o = dict(spatial_algorithm=alg, scale_restoration=False)
        yield "AuxLaplaceIVA " + alg, "demix_filter", lambda o=o: iva.AuxLaplaceIVA(**o)
        yield "AuxGaussIVA " + alg, "demix_filter", lambda o=o: iva.AuxGaussIVA(**o)
        yield "AuxIVA " + alg, "demix_filter", lambda o=o: iva.AuxIVA(contrast_fn=_laplace, d_contrast_fn=lambda y: 2 * np.ones_like(y), **o)
        yield "AuxLaplaceFDICA " + alg, "demix_filter", lambda o=o: fdica.AuxLaplaceFDICA(permutation_alignment=False, **o)
        for part in (False, True):
            q = " partitioned" if part else ""
            yield "GaussILRMA " + alg + q, "demix_filter", lambda o=o, part=part: il.GaussILRMA(2, partitioning=part, rng=g(), **o)
            yield "TILRMA " + alg + q, "demix_filter", lambda o=o, part=part: il.TILRMA(2, dof=5, partitioning=part, rng=g(), **o)
            yield "GGDILRMA " + alg + q, "demix_filter", lambda o=o, part=part: il.GGDILRMA(2, beta=1.5, partitioning=part, rng=g(), **o)
        yield "FastGaussMNMF " + alg, "diagonalizer", lambda alg=alg: mn.FastGaussMNMF(2, diagonalizer_algorithm=alg, rng=g())
    for blocks in (2, 3):
        yield "GaussIPSDTA %d" % blocks, "demix_filter", lambda n=blocks: ip.GaussIPSDTA(2, n, scale_restoration=False, rng=g())
        yield "TIPSDTA %d" % blocks, "demix_filter", lambda n=blocks: ip.TIPSDTA(2, n, dof=5, scale_restoration=False, rng=g())


@bounded("real-valued initial filters", "C03 C07", "37 method configurations, N = 2, 6 bins, 40 frames, two iterations", WHY)
def real_filters(b):
    X = b.rng.standard_normal((2, 6, 40)) + 1j * b.rng.standard_normal((2, 6, 40))
    for kind in ("identity", "random"):
        W = np.tile(np.eye(2), (6, 1, 1)) + (0 if kind == "identity" else 0.3 * b.rng.standard_normal((6, 2, 2)))
        for name, attr, make in _methods(b):
            with b.case("%s, %s" % (name, kind)):
                runs = []
                for dt in (np.complex128, np.float64):
                    m = make()
                    given = W.astype(dt)
                    keep = given.copy()
                    m(X.copy(), n_iter=2, **{attr: given})
                    b.check("the caller's filter is not written", np.array_equal(given, keep))
                    runs.append((getattr(m, attr), m.loss))
                b.close("filter after two iterations", runs[1][0], runs[0][0], 1e-7)
                b.close("loss history", np.array(runs[1][1]), np.array(runs[0][1]), 1e-7)
