import numpy as np

from vc.registry import bounded, contract

LA = "ssspy.linalg"


def herm(c, name, B, N, kind, pd=False, other=None):
    if c.symbolic and kind == "f" and other == "c":
        # real next to a complex matrix: entries of any Hermitian matrix, dispatched on as a real array (more general)
        A = c.array(name, (B, N, N), "c", herm=True)
        A.kind = "f"
        return A
    return c.array(name, (B, N, N), kind, **({"pd": True} if pd else {"herm": True}))


for kind, kn, k2 in (("c", "complex", "c"), ("f", "real", "f"), ("f", "real with complex", "c"), ("c", "complex with real", "f")):
    for typ in (1, 2, 3):

        @contract("eigh type %d %s" % (typ, kn), "C10", "linalg.eigh.eigh linalg.eigh._eigh")
        def eigh_t(c, kind=kind, typ=typ, k2=k2):
            B, N = c.dim("B"), c.dim("N", 2)
            A = herm(c, "A", B, N, kind, other=k2)
            Bm = herm(c, "Bm", B, N, k2, pd=True)
            lam, z = c.load(LA + ".eigh").eigh(A, Bm, type=typ)
            eigh_post(c, A, Bm, lam, z, B, N, typ)

        @contract("eigh2 type %d %s" % (typ, kn), "C10", "linalg.eigh.eigh2 linalg.eigh._eigh")
        def eigh2_t(c, kind=kind, typ=typ, k2=k2):
            B, N = c.dim("B"), c.dim("N", 2, 2)
            A = herm(c, "A", B, N, kind, other=k2)
            Bm = herm(c, "Bm", B, N, k2, pd=True)
            m = c.load(LA + ".eigh")
            if c.symbolic:
                c.stub(m, "inv2", c.np.linalg.inv)  # contract of inv2, proved separately
            lam, z = m.eigh2(A, Bm, type=typ)
            eigh_post(c, A, Bm, lam, z, B, N, typ)

        for rank in range(4) if kind == k2 else (1,):

            @contract("gmeanmh type %d %s, batch rank %d" % (typ, kn, rank), "C10", "linalg.mean.gmeanmh linalg.eigh.eigh")
            def gmean_t(c, kind=kind, typ=typ, rank=rank, k2=k2):
                lead = tuple(c.dim("B%d" % k) for k in range(rank))
                N = c.dim("N", 2)
                m = c.load(LA + ".mean")
                if c.symbolic:
                    if kind != k2:
                        return  # the parametrisation covers complex pairs; the numeric branch runs the mixed types
                    A, Bm = gmean_param(c, m, lead, N, kind, typ)
                else:
                    A = c.array("A", lead + (N, N), kind, pd=True)
                    Bm = c.array("Bm", lead + (N, N), k2, pd=True)
                G = m.gmeanmh(A, Bm, type=typ)
                c.shape("shape", G, lead + (N, N))
                # defining (Riccati) equations: 1: G A^-1 G = B ; 2: G A G = B ; 3: G B G = A   (documented geometric means)
                gmean_spec(c, A, Bm, G, lead, N, typ)


def gmean_param(c, m, lead, N, kind, typ):
    """every pair (A, B) of positive definite matrices is A, B below for the Z, lambda > 0 of the generalised
    eigenproblem; eigh's own contract (C10: eigh type 1-3) gives exactly these two equations."""
    np = c.np
    Z = c.array("Z", lead + (N, N), kind, invertible=True)
    lam = c.array("lam", lead + (N,), "f", sign="pos")
    iZ = np.linalg.inv(Z)
    ct = lambda X: np.conj(np.swapaxes(X, -1, -2))
    LI = lam[..., np.newaxis] * np.eye(N)
    if typ == 1:
        A, Bm = ct(iZ) @ LI @ iZ, ct(iZ) @ iZ
    elif typ == 2:
        A, Bm = Z @ LI @ ct(Z), ct(iZ) @ iZ
    else:
        A, Bm = ct(iZ) @ LI @ iZ, Z @ ct(Z)

    def eigh(X, Y=None, type=1):
        c.ensure("eigh is called on (A, B) with the same type", X is A and Y is Bm and type == typ)
        return lam, Z

    c.stub(m, "eigh", eigh)
    return A, Bm


def gmean_spec(c, A, Bm, G, lead, N, typ):
    np = c.np
    iA, iB = np.linalg.inv(A), np.linalg.inv(Bm)
    if typ == 1:
        L, R = G @ iA @ G, Bm
    elif typ == 2:
        L, R = G @ A @ G, Bm
    else:
        L, R = G @ Bm @ G, A
    D = list(lead) + [N, N]
    c.forall("Riccati equation", D, lambda *i: (L[i], R[i]))
    c.forall("Hermitian", D, lambda *i: (G[i], c.conj(G[i[:-2] + (i[-1], i[-2])])))


def eigh_post(c, A, Bm, lam, z, B, N, typ):
    c.shape("eigenvalue shape", lam, (B, N))
    c.shape("eigenvector shape", z, (B, N, N))
    zc = lambda b, i, m: c.conj(z[b, i, m])
    if typ == 1:
        c.forall("z^H B z = I", [B, N, N], lambda b, m, n: (c.sum(N, lambda i: c.sum(N, lambda j: zc(b, i, m) * Bm[b, i, j] * z[b, j, n])), c.delta(m, n)))
        c.forall("z^H A z = diag(lambda)  (with the above: A z = lambda B z)", [B, N, N], lambda b, m, n: (c.sum(N, lambda i: c.sum(N, lambda j: zc(b, i, m) * A[b, i, j] * z[b, j, n])), c.delta(m, n) * lam[b, n]))
    elif typ == 2:
        c.forall("z^H B z = I", [B, N, N], lambda b, m, n: (c.sum(N, lambda i: c.sum(N, lambda j: zc(b, i, m) * Bm[b, i, j] * z[b, j, n])), c.delta(m, n)))
        Bz = lambda b, i, n: c.sum(N, lambda j: Bm[b, i, j] * z[b, j, n])
        c.forall("z^H B A B z = diag(lambda)  (with the above: A B z = lambda z)", [B, N, N], lambda b, m, n: (c.sum(N, lambda i: c.sum(N, lambda j: c.conj(Bz(b, i, m)) * A[b, i, j] * Bz(b, j, n))), c.delta(m, n) * lam[b, n]))
    else:
        c.forall("z z^H = B  (z^H B^-1 z = I)", [B, N, N], lambda b, i, j: (c.sum(N, lambda m: z[b, i, m] * zc(b, j, m)), Bm[b, i, j]))
        c.forall("z^H A z = diag(lambda)  (with the above: B A z = lambda z)", [B, N, N], lambda b, m, n: (c.sum(N, lambda i: c.sum(N, lambda j: zc(b, i, m) * A[b, i, j] * z[b, j, n])), c.delta(m, n) * lam[b, n]))
    c.ascending("eigenvalues ascending", lam)
    c.unchanged("A not modified", A)
    c.unchanged("B not modified", Bm)


for kind, kn in (("c", "complex"), ("f", "real")):

    @contract("eigh standard %s" % kn, "C10", "linalg.eigh.eigh linalg.eigh.eigh2")
    def eigh_std(c, kind=kind):
        B, N = c.dim("B"), c.dim("N", 2)
        A = herm(c, "A", B, N, kind)
        lam, z = c.load(LA + ".eigh").eigh(A)
        c.forall("A z = lambda z", [B, N, N], lambda b, i, n: (c.sum(N, lambda j: A[b, i, j] * z[b, j, n]), lam[b, n] * z[b, i, n]))
        c.forall("z unitary", [B, N, N], lambda b, m, n: (c.sum(N, lambda i: c.conj(z[b, i, m]) * z[b, i, n]), c.delta(m, n)))
        c.ascending("eigenvalues ascending", lam)

    @contract("inv2 %s" % kn, "C10", "linalg.inv.inv2")
    def inv2(c, kind=kind):
        B, D = c.dim("B"), c.dim("D")
        X = c.array("X", (B, D, 2, 2), kind)
        Y = c.load(LA + ".inv").inv2(X)
        c.shape("shape", Y, (B, D, 2, 2))
        for i in range(2):
            for j in range(2):
                c.forall("X inv2(X) = I [%d%d]" % (i, j), [B, D], lambda b, d: (X[b, d, i, 0] * Y[b, d, 0, j] + X[b, d, i, 1] * Y[b, d, 1, j], 1 if i == j else 0))
                c.forall("inv2(X) X = I [%d%d]" % (i, j), [B, D], lambda b, d: (Y[b, d, i, 0] * X[b, d, 0, j] + Y[b, d, i, 1] * X[b, d, 1, j], 1 if i == j else 0))
        c.unchanged("input not modified", X)

    @contract("sqrtmh %s" % kn, "C10", "linalg.sqrtm.sqrtmh")
    def sqrtmh(c, kind=kind):
        B, N = c.dim("B"), c.dim("N", 2)
        X = herm(c, "X", B, N, kind, pd=True)
        S = c.load(LA + ".sqrtm").sqrtmh(X)
        c.shape("shape", S, (B, N, N))
        c.forall("S S = X", [B, N, N], lambda b, i, j: (c.sum(N, lambda k: S[b, i, k] * S[b, k, j]), X[b, i, j]))
        c.forall("Hermitian", [B, N, N], lambda b, i, j: (S[b, i, j], c.conj(S[b, j, i])))
        c.unchanged("input not modified", X)

    @contract("invsqrtmh %s" % kn, "C10", "linalg.sqrtm.invsqrtmh linalg.sqrtm.sqrtmh")
    def invsqrtmh(c, kind=kind):
        B, N = c.dim("B"), c.dim("N", 2)
        X = herm(c, "X", B, N, kind, pd=True)
        m = c.load(LA + ".sqrtm")
        R = m.invsqrtmh(X)
        S = m.sqrtmh(X)
        c.shape("shape", R, (B, N, N))
        c.forall("R sqrt(X) = I", [B, N, N], lambda b, i, j: (c.sum(N, lambda k: R[b, i, k] * S[b, k, j]), c.delta(i, j)))
        c.forall("R X R = I", [B, N, N], lambda b, i, j: (c.sum(N, lambda k: c.sum(N, lambda l: R[b, i, k] * X[b, k, l] * R[b, l, j])), c.delta(i, j)))
        c.forall("Hermitian", [B, N, N], lambda b, i, j: (R[b, i, j], c.conj(R[b, j, i])))
        c.unchanged("input not modified", X)

    @contract("solve %s" % kn, "C10", "linalg._solve.solve")
    def solve(c, kind=kind):
        B, N, K = c.dim("B", 1), c.dim("N", 2), c.dim("K")
        A = c.array("A", (B, N, N), kind)
        b1 = c.array("b1", (B, N), kind)
        b2 = c.array("b2", (B, N, K), kind)
        s = c.load(LA).solve
        x = s(A, b1)
        c.shape("vector shape", x, (B, N))
        c.forall("A x = b (vector)", [B, N], lambda b, i: (c.sum(N, lambda k: A[b, i, k] * x[b, k]), b1[b, i]))
        y = s(A, b2)
        c.shape("matrix shape", y, (B, N, K))
        c.forall("A X = B (matrix)", [B, N, K], lambda b, i, l: (c.sum(N, lambda k: A[b, i, k] * y[b, k, l]), b2[b, i, l]))
        c.unchanged("A not modified", A)
        c.unchanged("b not modified", b1)
        c.unchanged("B not modified", b2)

    @contract("quadratic %s" % kn, "C10", "linalg.quadratic.quadratic")
    def quadratic(c, kind=kind):
        B, D, N = c.dim("B"), c.dim("D"), c.dim("N", 2)
        X = c.array("X", (B, D, N), kind)
        A = c.array("A", (D, N, N), kind)
        q = c.load(LA).quadratic(X, A)
        c.shape("shape", q, (B, D))
        c.forall("x^H A x", [B, D], lambda b, d: (q[b, d], c.sum(N, lambda i: c.sum(N, lambda j: c.conj(X[b, d, i]) * A[d, i, j] * X[b, d, j]))))
        c.unchanged("X not modified", X)
        c.unchanged("A not modified", A)


# ---------------------------------------------------------------- cube root, cubic equation
for kind, kn in (("c", "complex"), ("f", "real")):

    @contract("cbrt %s" % kn, "C10", "linalg.cubic.cbrt")
    def cbrt_t(c, kind=kind):
        B = c.dim("B")
        x = c.array("x", (B,), kind)
        y = c.load(LA + ".cubic").cbrt(x)
        c.shape("shape", y, (B,))
        c.forall("cbrt(x)^3 = x", [B], lambda b: (y[b] * y[b] * y[b], x[b]))
        c.unchanged("input not modified", x)

    for mon in (True, False):

        @contract("solve_cubic %s %s" % ("monic" if mon else "general", kn), "C10", "linalg.polynomial.solve_cubic linalg.polynomial._find_cubic_roots")
        def cubic_t(c, kind=kind, mon=mon):
            B = c.dim("B")
            m = c.load(LA + ".polynomial")
            if c.symbolic:
                c.stub(m, "cbrt", c.complex_cbrt)  # contract of cubic.cbrt (proved: cbrt complex)
            co = [c.array(n, (B,), kind) for n in ("A", "B", "C", "D")]
            if mon:
                lead, rest = None, co[:3]
                X = m.solve_cubic(*rest)
            else:
                lead, rest = co[0], co[1:]
                if c.symbolic:
                    c.stub(m.np, "any", lambda *a, **k: False)  # precondition: nonzero leading coefficient
                X = m.solve_cubic(lead, *rest)
            c.shape("shape", X, (3, B))
            for k in range(3):
                l = lambda b: 1 if lead is None else lead[b]
                c.forall("root %d" % k, [B], lambda b: (l(b) * X[k, b] * X[k, b] * X[k, b] + rest[0][b] * X[k, b] * X[k, b] + rest[1][b] * X[k, b] + rest[2][b], 0))
            for x in co:
                c.unchanged("coefficients not modified", x)

    @contract("cubic roots of the depressed equation, P = 0 included, %s" % kn, "C10", "linalg.polynomial._find_cubic_roots")
    def cubic_p(c, kind=kind):
        B = c.dim("B")
        m = c.load(LA + ".polynomial")
        if c.symbolic:
            c.stub(m, "cbrt", c.complex_cbrt)
        Pc = c.array("P", (B,), kind) * (1 if c.symbolic else c.mask("z", (B,)))
        Q = c.array("Q", (B,), kind)
        X = m._find_cubic_roots(Pc, Q)
        for k in range(3):
            c.forall("root %d" % k, [B], lambda b: (X[k, b] * X[k, b] * X[k, b] + Pc[b] * X[k, b] + Q[b], 0))
        c.forall("roots add up to zero", [B], lambda b: (X[0, b] + X[1, b] + X[2, b], 0))
        c.forall("all three roots (with multiplicity)", [B], lambda b: (X[0, b] * X[1, b] + X[1, b] * X[2, b] + X[2, b] * X[0, b], Pc[b]))


# Over the reals the contracts above decide the cubic solver; whether Cardano's formula keeps its digits in floating point
# (the cube of U must not be a difference of nearly equal numbers) is a matter of machine arithmetic: bounded.
@bounded("cubic equations with coefficients of different magnitude, floating point", "C10",
         "x^3 + P x + Q, |P| = 10^-12..10^3, |Q| = 10^-3..10^3, all signs, real and complex; backward error 1e-6",
         "rounding and cancellation in the cube roots are outside the arithmetic of the prover")
def cubic_float(b):
    m = b.load(LA + ".polynomial")
    e = [(i, j) for i in range(-12, 4) for j in range(-3, 4)]
    P = np.array([10.0**i for i, _ in e])
    Q = np.array([10.0**j for _, j in e])
    one = np.ones(len(e))
    for name, p, q in (("+,+", 1, 1), ("+,-", 1, -1), ("-,+", -1, 1), ("-,-", -1, -1), ("complex", 0.6 + 0.8j, -0.8 + 0.6j), ("complex, real constant", 0.8 - 0.6j, 1)):
        with b.case("depressed cubic %s" % name):
            X = m.solve_cubic(0 * one, p * P, q * Q)
            r = np.abs(X**3 + p * P * X + q * Q) / (np.abs(X) ** 3 + P * np.abs(X) + Q)
            b.check("roots are finite", np.all(np.isfinite(X)))
            b.check("each root solves the equation (backward error)", np.all(r < 1e-6))
            b.check("the roots add up to zero", np.all(np.abs(X.sum(axis=0)) < 1e-6 * np.abs(X).max(axis=0)))
