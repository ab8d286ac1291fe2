from vc.registry import contract

PB = "ssspy.algorithm.projection_back"
MD = "ssspy.algorithm.minimal_distortion_principle"


@contract("projection_back filter form", "C02", "projection_back.projection_back_by_demix_filter projection_back.projection_back")
def pb_filter(c):
    N, I = c.dim("N", 2), c.dim("I")
    W = c.array("W", (I, N, N))
    ref = c.index("ref", N)
    pb = c.load(PB).projection_back
    out = pb(W, reference_id=ref)
    c.shape("shape", out, (I, N, N))
    c.forall("images sum to the reference", [I, N], lambda i, k: (c.sum(N, lambda n: out[i, n, k]), c.delta(ref, k)))
    # each row is a multiple of the original row:  out = D W with D diagonal
    iW = lambda i: c.inv(N, lambda a, b: W[i, a, b])
    c.forall("rows only rescaled by inverse filter", [I, N, N], lambda i, n, k: (out[i, n, k], iW(i)(ref, n) * W[i, n, k]))
    d = c.array("d", (I, N))
    out2 = pb(W * d[:, :, None], reference_id=ref)
    c.forall("scale invariance", [I, N, N], lambda i, n, k: (out2[i, n, k], out[i, n, k]))
    c.unchanged("input not modified", W)


@contract("projection_back spectrogram form", "C02", "projection_back.projection_back_by_demix_filter projection_back.projection_back_by_spectrogram projection_back.projection_back")
def pb_spec(c):
    N, I, J = c.dim("N", 2), c.dim("I"), c.dim("J")
    if not c.symbolic:
        c.require(J >= N)
    W = c.array("W", (I, N, N))
    X = c.array("X", (N, I, J))
    ref = c.index("ref", N)
    pb = c.load(PB).projection_back
    Y = (W @ X.transpose(1, 0, 2)).transpose(1, 0, 2)
    out = pb(Y, reference=X, reference_id=ref)
    c.shape("shape", out, (N, I, J))
    c.forall("images sum to the reference", [I, J], lambda i, j: (c.sum(N, lambda n: out[n, i, j]), X[ref, i, j]))
    Wp = pb(W, reference_id=ref)
    c.forall("agrees with filter form", [N, I, J], lambda n, i, j: (out[n, i, j], c.sum(N, lambda k: Wp[i, n, k] * X[k, i, j])))
    c.unchanged("reference not modified", X)


@contract("projection_back all reference channels", "C02", "projection_back.projection_back_by_demix_filter projection_back.projection_back_by_spectrogram")
def pb_all(c):
    N, I, J = c.dim("N", 2), c.dim("I"), c.dim("J", 1, nlo=6)
    W = c.array("W", (I, N, N))
    X = c.array("X", (N, I, J))
    ref = c.index("ref", N)
    pb = c.load(PB).projection_back
    allW = pb(W, reference_id=None)
    one = pb(W, reference_id=ref)
    c.shape("filter form shape", allW, (N, I, N, N))
    c.forall("filter form: slice equals single reference", [I, N, N], lambda i, n, k: (allW[ref, i, n, k], one[i, n, k]))
    Y = (W @ X.transpose(1, 0, 2)).transpose(1, 0, 2)
    allY = pb(Y, reference=X, reference_id=None)
    oneY = pb(Y, reference=X, reference_id=ref)
    c.shape("spectrogram form shape", allY, (N, N, I, J))
    c.forall("spectrogram form: slice equals single reference", [N, I, J], lambda n, i, j: (allY[ref, n, i, j], oneY[n, i, j]))
    c.forall("images of every reference sum to it", [N, I, J], lambda m, i, j: (c.sum(N, lambda n: allY[m, n, i, j]), X[m, i, j]))


@contract("projection_back spectrogram scale invariance", "C02", "projection_back.projection_back_by_spectrogram")
def pb_spec_scale(c):
    N, I, J = c.dim("N", 2), c.dim("I"), c.dim("J", 1, nlo=6)
    Y = c.array("Y", (N, I, J))
    X = c.array("X", (N, I, J))
    ref = c.index("ref", N)
    d = c.array("d", (N, I))
    pb = c.load(PB).projection_back
    a = pb(Y, reference=X, reference_id=ref)
    b = pb(Y * d[:, :, None], reference=X, reference_id=ref)
    c.forall("scale invariance", [N, I, J], lambda n, i, j: (a[n, i, j], b[n, i, j]))
    # least-squares fit of the reference by all sources: residual orthogonal to every source
    c.forall("residual orthogonal to every source", [N, I], lambda m, i: (c.sum(J, lambda j: (X[ref, i, j] - c.sum(N, lambda n: a[n, i, j])) * c.conj(Y[m, i, j])), 0))
    c.unchanged("sources not modified", Y)
    c.unchanged("reference not modified", X)


@contract("minimal distortion principle", "C02", "minimal_distortion_principle.minimal_distortion_principle")
def mdp(c):
    N, I, J = c.dim("N", 2), c.dim("I"), c.dim("J", 1, nlo=3)
    Y = c.array("Y", (N, I, J))
    X = c.array("X", (N, I, J))
    ref = c.index("ref", N)
    f = c.load(MD).minimal_distortion_principle
    out = f(Y, reference=X, reference_id=ref)
    c.shape("shape", out, (N, I, J))
    c.forall("residual orthogonal to the source", [N, I], lambda n, i: (c.sum(J, lambda j: (X[ref, i, j] - out[n, i, j]) * c.conj(Y[n, i, j])), 0))
    c.forall("parallel to the source", [N, I, J, J], lambda n, i, j, k: (out[n, i, j] * Y[n, i, k], out[n, i, k] * Y[n, i, j]))
    d = c.array("d", (N, I))
    out2 = f(Y * d[:, :, None], reference=X, reference_id=ref)
    c.forall("scale invariance", [N, I, J], lambda n, i, j: (out2[n, i, j], out[n, i, j]))
    al = f(Y, reference=X, reference_id=None)
    c.shape("all-reference shape", al, (N, N, I, J))
    c.forall("all references: slice equals single reference", [N, I, J], lambda n, i, j: (al[ref, n, i, j], out[n, i, j]))
    c.unchanged("sources not modified", Y)
    c.unchanged("reference not modified", X)
