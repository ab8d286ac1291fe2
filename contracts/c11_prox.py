from vc.registry import contract

PX = "ssspy.linalg.prox"

for kind, kn in (("c", "complex"), ("f", "real")):

    @contract("prox l1 %s" % kn, "C11", "linalg.prox.l1")
    def l1(c, kind=kind):
        B, D = c.dim("B"), c.dim("D")
        g = c.scalar("g", sign="pos")
        x = c.array("x", (B, D), kind)
        y = c.load(PX).l1(x, step_size=g)
        c.shape("shape", y, (B, D))
        # soft threshold: p = x - g x/|x| for |x| > g and 0 otherwise (Moreau: x - p is in g * subdifferential of |p|)
        c.forall("x - p = g x / max(|x|, g)", [B, D], lambda b, d: ((x[b, d] - y[b, d]) * c.maximum(c.abs(x[b, d]), g), g * x[b, d]))
        c.forall("|p| = max(|x| - g, 0)", [B, D], lambda b, d: (c.abs(y[b, d]), c.maximum(c.abs(x[b, d]) - g, 0)))
        c.unchanged("input not modified", x)

    for ax in (-1, -2, 0, 1, 2):

        @contract("prox l21 %s axis %d" % (kn, ax), "C11", "linalg.prox.l21")
        def l21(c, kind=kind, ax=ax):
            sh = [c.dim("B"), c.dim("D"), c.dim("E")]
            g = c.scalar("g", sign="pos")
            x = c.array("x", tuple(sh), kind)
            y = c.load(PX).l21(x, step_size=g, axis2=ax) if ax != -1 else c.load(PX).l21(x, step_size=g)
            c.shape("shape", y, tuple(sh))
            k = ax % 3

            def nrm(ix):
                def f(q):
                    j = list(ix)
                    j[k] = q
                    return c.abs2(x[tuple(j)])

                return c.sqrt(c.sum(sh[k], f))

            c.forall("x - p = g x / max(||x_group||, g)", sh, lambda *i: ((x[i] - y[i]) * c.maximum(nrm(i), g), g * x[i]))
            c.unchanged("input not modified", x)


@contract("prox l21 default step", "C11", "linalg.prox.l21 linalg.prox.l1 linalg.prox.neg_log")
def l21d(c):
    B, D = c.dim("B"), c.dim("D")
    x = c.array("x", (B, D), "c")
    m = c.load(PX)
    y, z = m.l21(x), m.l1(x)
    nrm = lambda b: c.sqrt(c.sum(D, lambda q: c.abs2(x[b, q])))
    c.forall("l21, step size 1", [B, D], lambda b, d: ((x[b, d] - y[b, d]) * c.maximum(nrm(b), 1), x[b, d]))
    c.forall("l1, step size 1", [B, D], lambda b, d: ((x[b, d] - z[b, d]) * c.maximum(c.abs(x[b, d]), 1), x[b, d]))
    w = c.array("w", (B, D), "f", sign="nonneg")
    y = m.neg_log(w)
    c.forall("neg_log, step size 1", [B, D], lambda b, d: (y[b, d] * (y[b, d] - w[b, d]), 1))


@contract("prox neg_log", "C11", "linalg.prox.neg_log")
def neglog(c):
    B, D = c.dim("B"), c.dim("D")
    g = c.scalar("g", sign="pos")
    x = c.array("x", (B, D), "f", sign="nonneg")
    y = c.load(PX).neg_log(x, step_size=g)
    c.shape("shape", y, (B, D))
    c.forall("stationarity p (p - x) = g", [B, D], lambda b, d: (y[b, d] * (y[b, d] - x[b, d]), g))
    c.forall_pos("p > 0", [B, D], lambda b, d: y[b, d], strict=True)
    c.unchanged("input not modified", x)


for kind, kn in (("c", "complex"), ("f", "real")):

    for rank in range(4):

        @contract("prox neg_logdet %s, batch rank %d" % (kn, rank), "C11", "linalg.prox.neg_logdet linalg.prox.neg_log", samples=6)
        def neglogdet(c, kind=kind, rank=rank):
            lead = tuple(c.dim("B%d" % k) for k in range(rank))
            N = c.dim("N", 2)
            g = c.scalar("g", sign="pos")
            X = c.svd_array("X", lead, N, kind)
            y = c.load(PX).neg_logdet(X, step_size=g)
            c.shape("shape", y, lead + (N, N))
            D = list(lead) + [N, N]
            c.forall("stationarity P^H (P - X) = g I", D, lambda *z: (c.sum(N, lambda k: c.conj(y[z[:-2] + (k, z[-2])]) * (y[z[:-2] + (k, z[-1])] - X[z[:-2] + (k, z[-1])])), g * c.delta(z[-2], z[-1])))
            H = lambda b, i, j: c.sum(N, lambda k: c.conj(y[b + (k, i)]) * X[b + (k, j)])
            c.forall("P^H X Hermitian (same singular vectors)", D, lambda *z: (H(z[:-2], z[-2], z[-1]), c.conj(H(z[:-2], z[-1], z[-2]))))
            x = c.array("probe", lead + (N,), kind)
            c.forall_pos("P^H X positive semidefinite (minimum, not another stationary point)", list(lead) or [1], lambda *b: (lambda b: c.sum(N, lambda i: c.sum(N, lambda j: c.conj(x[b + (i,)]) * H(b, i, j) * x[b + (j,)])))(b if lead else ()))
            c.unchanged("input not modified", X)
