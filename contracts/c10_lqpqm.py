"""C10: the log-quadratically penalised quadratic programme behind projection adjustment
min_q  q^H q - log((q + v)^H H (q + v) + z):  the returned q satisfies its stationarity equations
    lambda q = H (q + v),   lambda = (q + v)^H H (q + v) + z
where lambda is the largest root of the scalar equation f(lambda) = 0 (its solver enters by its contract)."""

import numpy as np

from vc.registry import bounded, contract

LQ = "ssspy.linalg.lqpqm"


@contract("scalar equation of the log-quadratic programme and its derivative", "C10", "linalg.lqpqm._fn linalg.lqpqm._d_fn")
def fn_dfn(c):
    I, K = c.dim("I"), c.dim("K")
    lam, z = c.array("lam", (I,), "f", sign="pos"), c.array("z", (I,), "f", sign="pos")
    phi, v = c.array("phi", (I, K), "f", sign="pos"), c.array("v", (I, K), "c")
    m = c.load(LQ)
    f, d = m._fn(lam, phi, v, z), m._d_fn(lam, phi, v, z)
    S = lambda i, p: c.sum(K, lambda k: phi[i, k] ** p * c.abs2(v[i, k]) / (lam[i] - phi[i, k]) ** (p + 1))
    c.forall("f", [I], lambda i: (f[i], lam[i] ** 2 * S(i, 1) - lam[i] + z[i]))
    c.forall("derivative of f", [I], lambda i: (d[i], -2 * lam[i] * S(i, 2) - 1))


@contract("log-quadratic programme: stationarity of the solution", "C10 C03", "linalg.lqpqm.lqpqm2", samples=10)
def lqpqm(c):
    I, K = c.dim("I"), c.dim("K")
    H, v, z = c.array("H", (I, K, K), "c", pd=True), c.array("v", (I, K), "c"), c.array("z", (I,), "f", sign="pos")
    m = c.load(LQ)
    if not c.symbolic:
        v = c.track("v with zeros", v.copy())
        v[c.rng.random(I) < 0.3] = 0
        if c.rng.random() < 0.3:
            v[:] = 0
        z = c.track("z over many decades", z * 10 ** c.rng.uniform(-1, 1, I))
        c.retrack()
        arg = (H.copy(), v.copy(), z.copy())
        kw = {} if c.rng.random() < 0.5 else dict(flooring_fn=None, singular_fn=None)
        q = m.lqpqm2(H, v, z, max_iter=100, **kw)
        lam = np.real(np.einsum("ia,iab,ib->i", (q + v).conj(), H, q + v)) + z
        top = np.linalg.eigh(H)[0][:, -1]
        one = np.any(v != 0, axis=-1)
        c.forall("stationary", [I, K], lambda i, a: (lam[i] * q[i, a], (H[i] @ (q[i] + v[i]))[a]))
        c.forall_pos("largest root: above the spectrum", [I], lambda i: lam[i] - top[i] * (1 - 1e-9), strict=False)
        c.forall("where v vanishes: multiplier is the larger of z and the top eigenvalue", [I], lambda i: ((0, 0) if one[i] else (lam[i], max(z[i], top[i]))))
        for nm, x, y in zip("Hvz", arg, (H, v, z)):
            c.forall("argument %s not modified" % nm, [int(np.prod(x.shape))], lambda k: (x.reshape(-1)[k], y.reshape(-1)[k]))
        return
    t = c.scalar("t", sign="pos")
    got = []

    def root(phi, vt, zz, *a, **k):
        M = phi.shape[0]
        lam = c.fresh_array("lamb", (M,), "f", sign="pos")
        # contract of solve_equation: f(lambda) = 0
        s = c.fresh_from((M,), lambda r: c.sum(K, lambda k: phi[r, k] * c.abs2(vt[r, k]) / (lam[r] - phi[r, k]) ** 2), "f")
        got.append((lam, phi, vt, zz))
        return lam

    c.stub(m, "solve_equation", root)
    q = m.lqpqm2(H, v, z, flooring_fn=None, singular_fn=lambda x: x < t)
    if len(got) != 1:
        raise NotImplementedError
    lam, phi, vt, zz = got[0]
    low = c.np.linalg.norm(v, axis=-1) < t
    on, off = low * 1, (~low) * 1
    (g, rank), (g1, rank1) = c.mask(~low), c.mask(low)
    M = lam.shape[0]
    # the callee is called on the bins where v does not vanish, with the eigenvalues and the rotated linear term
    phiH, sig = c.np.linalg.eigh(H)
    c.forall("scalar equation of the selected bins: eigenvalues", [M, K], lambda r, k: (phi[r, k], phiH[g(r), k]))
    c.forall("scalar equation of the selected bins: linear term", [M, K], lambda r, k: (vt[r, k], c.sum(K, lambda a: c.conj(sig[g(r), a, k]) * v[g(r), a])))
    c.forall("scalar equation of the selected bins: constant term", [M], lambda r: (zz[r], z[g(r)]))
    # projected on the eigenvectors (a basis): lambda q = H (q + v)
    L = lambda i: lam[rank(i)]
    Hqv = lambda i, a: c.sum(K, lambda b: H[i, a, b] * (q[i, b] + v[i, b]))
    pr = lambda i, m, f: c.sum(K, lambda a: c.conj(sig[i, a, m]) * f(a))
    c.forall("stationary where v does not vanish", [I, K], lambda i, m: (off[i] * L(i) * pr(i, m, lambda a: q[i, a]), off[i] * pr(i, m, lambda a: Hqv(i, a))))
    # penalty: lambda q = H (q + v), so (q + v)^H H (q + v) = lambda (q + v)^H q = lambda^2 sum_k phi_k |v~_k|^2 / (lambda - phi_k)^2
    # = f(lambda) + lambda - z = lambda - z (contract of the scalar solver); the sum is compared term by term
    P = lambda i, k: c.abs2(pr(i, k, lambda a: v[i, a])) * phiH[i, k]
    D = lambda i, k: L(i) - phiH[i, k]
    c.forall("terms of the scalar equation", [I, K], lambda i, k: (off[i] * L(i) * (phiH[i, k] / D(i, k) ** 2 + 1 / D(i, k)), off[i] * L(i) ** 2 / D(i, k) ** 2))
    c.forall(
        "penalty where v does not vanish: the scalar equation at lambda (zero by contract) plus lambda",
        [I],
        lambda i: (off[i] * c.sum(K, lambda a: c.conj(q[i, a] + v[i, a]) * q[i, a]), off[i] * c.sum(K, lambda k: P(i, k) * (phiH[i, k] / D(i, k) ** 2 + 1 / D(i, k)))),
    )
    mx = lambda i: c.np.maximum(z[i], phiH[i, K - 1])
    c.forall("where v vanishes: principal eigenvector", [I, K], lambda i, a: (on[i] * mx(i) * q[i, a], on[i] * c.sum(K, lambda b: H[i, a, b] * q[i, b])))
    c.forall("where v vanishes: penalty is the larger of z and the top eigenvalue", [I], lambda i: (on[i] * (phiH[i, K - 1] * c.sum(K, lambda a: c.abs2(q[i, a])) + z[i]), on[i] * mx(i)))
    c.unchanged("matrix not modified", H)
    c.unchanged("linear term not modified", v)
    c.unchanged("constant not modified", z)


WHY = "argmax-indexed gather and a data-dependent Newton loop; the cubic's real-root selection needs moduli of complex cube roots"


@bounded("scalar solver of the log-quadratic programme", "C10 C03", "1-8 eigenvalues, 40 or 600 bins x 12 scales; up to 100 Newton steps; coefficients over 4 decades", WHY)
def root(b):
    m = b.load(LQ)
    for K in (1, 2, 3, 5, 8):
        for s, zero in ((-1, False), (0, False), (1, False), (0, True)):
            I = 600 if s == 0 else 40
            with b.case("roots K=%d scale=%d%s" % (K, s, " with vanishing components" if zero else "")):
                phi = b.rng.gamma(1.0, 1.0, (I, K)) * 10.0**s + 1e-3 * 10.0**s
                v = (b.rng.standard_normal((I, K)) + 1j * b.rng.standard_normal((I, K))) * 10 ** b.rng.uniform(-1, 1, (I, 1))
                z = 10 ** b.rng.uniform(-2, 2, I)
                if zero:  # components the linear term does not touch drop out of the equation
                    v[:, 1:][b.rng.random((I, K - 1)) < 0.5] = 0
                    v = b.rng.permuted(v, axis=1)
                act = np.where(v == 0, 0, phi)
                args = phi.copy(), v.copy(), z.copy()
                f = lambda l: l**2 * np.sum(act * np.abs(v) ** 2 / (l[:, None] - act) ** 2, axis=-1) - l + z
                # oracle: f decreases on (max phi, inf); bisection
                lo, hi = act.max(-1), np.maximum(act.max(-1), z) * 2 + 1
                for _ in range(200):
                    hi = np.where(f(hi) > 0, 2 * hi, hi)
                for _ in range(200):
                    mid = (lo + hi) / 2
                    neg = f(mid) <= 0
                    hi, lo = np.where(neg, mid, hi), np.where(neg, lo, mid)
                for norm in (True, False):
                    lam = m.solve_equation(phi, v, z, max_iter=100, normalization=norm)
                    b.close("largest root, normalization=%s" % norm, lam, hi, tol=1e-6)
                one, two = (m.solve_equation(phi, v, z, max_iter=2, normalization=norm) for norm in (True, False))
                b.close("normalization does not change the iterates", one, two, tol=1e-6)
                for nm, x, y in zip(("phi", "v", "z"), args, (phi, v, z)):
                    b.check("argument %s not modified" % nm, np.array_equal(x, y))
                b.check("never beyond the root, always above the spectrum", bool(np.all(one > act.max(-1)) and np.all(one <= hi * (1 + 1e-6))))
    import functools
    import warnings

    for mk in (1, 2, 3, 8, 60):
        for eps in (1e-10, 1e-3):
            with b.case("iteration limit %d, tolerance %g" % (mk, eps)):
                I, K = 30, 3
                A = b.rng.standard_normal((I, K, K)) + 1j * b.rng.standard_normal((I, K, K))
                H = A @ A.conj().swapaxes(-1, -2) + 0.1 * np.eye(K)
                v = b.rng.standard_normal((I, K)) + 1j * b.rng.standard_normal((I, K))
                z = b.rng.uniform(0.1, 3, I)
                fl = functools.partial(b.load("ssspy.special.flooring").max_flooring, eps=eps)
                phi, sig = np.linalg.eigh(H)
                vt = np.einsum("iak,ia->ik", sig.conj(), v)
                with warnings.catch_warnings(record=True) as got:
                    warnings.simplefilter("always")
                    q = m.lqpqm2(H, v, z, flooring_fn=fl, max_iter=mk)
                # the multiplier lqpqm2 used, recovered from q = (lambda - H)^-1 H v
                w = q + v
                lam = np.real(np.sum(w.conj() * np.einsum("iab,ib->ia", H, w), -1) / np.sum(w.conj() * q, -1))
                res = lam**2 * np.sum(phi * np.abs(vt) ** 2 / (lam[:, None] - phi) ** 2, -1) - lam + z
                res = np.abs(res) / phi[:, -1]
                warned = any(issubclass(x.category, UserWarning) and "converge" in str(x.message) for x in got)
                if np.all(res <= 0.5 * eps):
                    b.check("no warning once converged", not warned)
                if np.any(res > 2 * eps):
                    b.check("warning when the iteration limit is reached first", warned)
                # reference: Newton's method from the documented cubic start, unnormalised
                ref = m.solve_equation(phi, vt, z, flooring_fn=fl, max_iter=mk)
                b.close("iteration limit and floor reach the scalar solver", lam, ref, tol=1e-5)
                b.check("converged within 60 steps", mk < 60 or bool(np.all(res <= 2 * eps)))
    with b.case("largest root of the cubic with three real roots or a unique dominant one"):
        r = np.sort(b.rng.standard_normal((200, 3)) * 3, axis=-1)
        x = m._find_largest_root(-r.sum(-1), r[:, 0] * r[:, 1] + r[:, 1] * r[:, 2] + r[:, 0] * r[:, 2], -r.prod(-1))
        b.close("three real roots", x, r[:, -1], tol=1e-5)
        a, w = b.rng.uniform(0.5, 3, 200), b.rng.uniform(-1, 0.4, 200) + 1j * b.rng.uniform(0.1, 2, 200)
        x = m._find_largest_root(-(a + 2 * w.real), np.abs(w) ** 2 + 2 * w.real * a, -a * np.abs(w) ** 2)
        b.close("one real root to the right of the complex pair", x, a, tol=1e-5)
        A = b.rng.gamma(1.0, 1.0, 200)
        zz = b.rng.gamma(1.0, 1.0, 200)
        x = m._find_largest_root(-(A + 2 + zz), 1 + 2 * zz, -zz)
        b.close("initial cubic of the scalar solver", (x - 1) ** 2 * (x - zz), A * x**2, tol=1e-6)
        b.check("above one and above the constant term", bool(np.all(x > 1) and np.all(x >= zz)))
