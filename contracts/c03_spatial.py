import numpy as np

from vc.explore import LoopSpec
from vc.symnp import ix_of
from vc.registry import bounded, contract

SM = "ssspy.bss._update_spatial_model"


def like(shape_of, not_storage=None, kind=None):
    """the loop state is the array of this shape (a copy: not the given storage)"""
    def pred(v):
        sh = getattr(v, "shape", None)
        return sh is not None and len(sh) == len(shape_of.shape) and all(ix_of(a) is ix_of(b) for a, b in zip(sh, shape_of.shape)) and (not_storage is None or v.st is not not_storage.st) and (kind is None or v.kind == kind)

    return pred


def quad(c, N, U, x, y):
    """x^T U conj(y) for rows x, y of the demixing filter: w_x^H U w_y"""
    return c.sum(N, lambda a: c.sum(N, lambda b: x(a) * U(a, b) * c.conj(y(b))))


def ref_ip1(W, U):
    W = W.copy()
    n_bins, N, _ = W.shape
    for n in range(N):
        for i in range(n_bins):
            w = np.linalg.solve(W[i] @ U[i, n], np.eye(N)[n])
            W[i, n] = w.conj() / np.sqrt(np.real(w.conj() @ U[i, n] @ w))
    return W


def same_rows(c, label, A, B):
    """rows equal up to a phase per bin and source (the equations determine them only up to a phase)"""
    I, N, C = B.shape
    c.forall(label, [I, N, C, C], lambda i, n, a, b: (A[i, n, a] * np.conj(A[i, n, b]), B[i, n, a] * np.conj(B[i, n, b])))


for ow in (True, False):

    @contract("update_by_ip1 overwrite=%s" % ow, "C03", "bss._update_spatial_model.update_by_ip1 linalg._solve.solve", samples=8)
    def ip1(c, ow=ow):
        I, N = c.dim("I"), c.dim("N", 2)
        W = c.array("W", (I, N, N), "c", invertible=True)
        U = c.array("U", (I, N, N, N), "c", pd=True)
        f = c.load(SM).update_by_ip1
        if not c.symbolic:
            W0 = W.copy()
            R = f(W, U, flooring_fn=None, overwrite=ow)
            same_rows(c, "sweep: every row solves its system given the rows updated before it", R, ref_ip1(W0, U))
            if ow:
                c.ensure("in place", R is W)
            else:
                c.ensure("input kept", np.array_equal(W, W0) and not np.shares_memory(R, W))
            c.unchanged("covariance not modified", U)
            return

        def check(cx, k, old, new):
            A, B = old["W"], new["W"]
            cx.forall("rows of other sources unchanged", [I, N, N], lambda i, m, a: (A[i, m, a], B[i, m, a]), where=lambda i, m, a: m != k)
            cx.forall(
                "updated row weighted-orthogonal to every other row",
                [I, N],
                lambda i, m: (quad(cx, N, lambda a, b: U[i, k, a, b], lambda a: B[i, m, a], lambda b: B[i, k, b]), 0),
                where=lambda i, m: m != k,
            )
            cx.forall("updated row has unit weighted power", [I], lambda i: (quad(cx, N, lambda a, b: U[i, k, a, b], lambda a: B[i, k, a], lambda b: B[i, k, b]), 1))

        def init(cx, st):
            cx.forall("sweep starts from the given filter", [I, N, N], lambda i, n, a: (st["W"][i, n, a], W[i, n, a]))

        sp = LoopSpec({"W": W if ow else like(W, W, "c")}, check=check, init=init)
        c.loops(sp)
        R = f(W, U, flooring_fn=None, overwrite=ow)
        c.ensure_int("every source is visited once", sp.n == N)
        if ow:
            c.ensure("in place", R is W or R.st is W.st)
        else:
            c.unchanged("filter not modified", W)
            c.not_shared("result is a copy", R, W)
        c.unchanged("covariance not modified", U)


@contract("update_by_ip1 floor", "C03", "bss._update_spatial_model.update_by_ip1", samples=6)
def ip1_floor(c):
    """with an arbitrary flooring function: row n is conj of the system's solution over floor(sqrt(w^H U w))"""
    I, N = c.dim("I"), c.dim("N", 2)
    W = c.array("W", (I, N, N), "c", invertible=True)
    U = c.array("U", (I, N, N, N), "c", pd=True)
    f = c.load(SM).update_by_ip1
    g = c.ufunc("floor", sign="pos")
    if not c.symbolic:
        W0 = W.copy()
        R = f(W, U, flooring_fn=g, overwrite=False)
        for n in range(N):
            for i in range(I):
                w = np.linalg.solve(W0[i] @ U[i, n], np.eye(N)[n])
                W0[i, n] = w.conj() / g(np.sqrt(np.real(w.conj() @ U[i, n] @ w)))
        same_rows(c, "floored sweep", R, W0)
        return

    def check(cx, k, old, new):
        A, B = old["W"], new["W"]
        cx.forall("rows of other sources unchanged", [I, N, N], lambda i, m, a: (A[i, m, a], B[i, m, a]), where=lambda i, m, a: m != k)
        cx.forall(
            "updated row weighted-orthogonal to every other row",
            [I, N],
            lambda i, m: (quad(cx, N, lambda a, b: U[i, k, a, b], lambda a: A[i, m, a], lambda b: B[i, k, b]), 0),
            where=lambda i, m: m != k,
        )
        iv = lambda i: cx.inv(N, lambda a, b: cx.sum(N, lambda d: A[i, a, d] * U[i, k, d, b]))
        w = cx.fresh_from((I, N), lambda i, d: iv(i)(d, k), "c")
        den = g(cx.fresh_from((I,), lambda i: cx.sqrt(cx.re(quad(cx, N, lambda a, b: U[i, k, a, b], lambda a: cx.conj(w[i, a]), lambda b: cx.conj(w[i, b]))))))
        cx.forall("row is the solution over its floored weighted norm", [I, N], lambda i, d: (B[i, k, d] * den[i], cx.conj(w[i, d])))

    c.loops(LoopSpec({"W": W}, check=check))
    f(W, U, flooring_fn=g, overwrite=True)


def ref_iss1(Y, ph):
    Y = Y.copy()
    N, I, J = Y.shape
    for k in range(N):
        num = np.mean(ph * Y * Y[k].conj(), axis=-1)
        den = np.mean(ph * np.abs(Y[k]) ** 2, axis=-1)
        v = num / den
        v[k] = 1 - 1 / np.sqrt(den[k])
        Y = Y - v[:, :, None] * Y[k]
    return Y


@contract("update_by_iss1", "C03", "bss._update_spatial_model.update_by_iss1", samples=8)
def iss1(c):
    I, N, J = c.dim("I"), c.dim("N", 2), c.dim("J", 2)
    Y = c.array("Y", (N, I, J), "c")
    ph = c.array("phi", (N, I, J), "f", sign="pos")
    f = c.load(SM).update_by_iss1
    if not c.symbolic:
        R = f(Y, ph, flooring_fn=None)
        c.forall("sweep", [N, I, J], lambda n, i, j: (R[n, i, j], ref_iss1(Y, ph)[n, i, j]))
        c.unchanged("input not modified", Y)
        c.unchanged("weight not modified", ph)
        return

    def check(cx, k, old, new):
        A, B = old["Y"], new["Y"]
        cx.forall(
            "rank-one steering along the current source (one coefficient per bin and source)",
            [N, I, J, J],
            lambda n, i, j, t: ((B[n, i, j] - A[n, i, j]) * A[k, i, t], (B[n, i, t] - A[n, i, t]) * A[k, i, j]),
        )
        cx.forall(
            "updated sources weighted-orthogonal to the current source",
            [N, I],
            lambda n, i: (cx.sum(J, lambda j: ph[n, i, j] * B[n, i, j] * cx.conj(B[k, i, j])), 0),
            where=lambda n, i: n != k,
        )
        cx.forall("current source has unit weighted power", [I], lambda i: (cx.sum(J, lambda j: ph[k, i, j] * B[k, i, j] * cx.conj(B[k, i, j])), J))

    def init(cx, st):
        cx.forall("sweep starts from the given sources", [N, I, J], lambda n, i, j: (st["Y"][n, i, j], Y[n, i, j]))

    sp = LoopSpec({"Y": like(Y)}, check=check, init=init)
    c.loops(sp)
    f(Y, ph, flooring_fn=None)
    c.ensure_int("every source is visited once", sp.n == N)
    c.unchanged("input not modified", Y)
    c.unchanged("weight not modified", ph)


@contract("update_by_iss1 floor", "C03", "bss._update_spatial_model.update_by_iss1", samples=6)
def iss1_floor(c):
    I, N, J = c.dim("I"), c.dim("N", 2), c.dim("J", 2)
    Y = c.array("Y", (N, I, J), "c")
    ph = c.array("phi", (N, I, J), "f", sign="pos")
    g = c.ufunc("floor", sign="pos")
    f = c.load(SM).update_by_iss1
    if not c.symbolic:
        R = f(Y, ph, flooring_fn=g)
        Z = Y.copy()
        for k in range(N):
            den = g(np.mean(ph * np.abs(Z[k]) ** 2, axis=-1))
            v = np.mean(ph * Z * Z[k].conj(), axis=-1) / den
            v[k] = 1 - 1 / np.sqrt(den[k])
            Z = Z - v[:, :, None] * Z[k]
        c.forall("floored sweep", [N, I, J], lambda n, i, j: (R[n, i, j], Z[n, i, j]))
        return

    def check(cx, k, old, new):
        A, B = old["Y"], new["Y"]
        den = g(cx.fresh_from((N, I), lambda n, i: cx.sum(J, lambda j: ph[n, i, j] * cx.abs2(A[k, i, j])) / J))
        cx.forall(
            "steering coefficient is the weighted correlation over the floored weighted power",
            [N, I, J],
            lambda n, i, j: ((A[n, i, j] - B[n, i, j]) * den[n, i] * J, cx.sum(J, lambda t: ph[n, i, t] * A[n, i, t] * cx.conj(A[k, i, t])) * A[k, i, j]),
            where=lambda n, i, j: n != k,
        )
        cx.forall("current source divided by the square root of the floored power", [I, J], lambda i, j: (B[k, i, j] * cx.sqrt(den[k, i]), A[k, i, j]))

    c.loops(LoopSpec({"Y": like(Y)}, check=check))
    f(Y, ph, flooring_fn=g)


def eigh2_contract(c, state):
    """stub of ssspy.linalg.eigh.eigh2(A, B) by its contract (C10): z^H A z = diag(lamb), z^H B z = I"""
    from vc import ops, terms as T
    from vc import symnp as S
    from fractions import Fraction

    def stub(A, B, type=1):
        assert type == 1
        k = len(state)
        lead = tuple(A.shape[:-2])
        lam = c.fresh_array("lamb%d" % k, lead + (2,), "f", sign="pos")
        z = c.fresh_array("z%d" % k, lead + (2, 2), "c")
        state.append((lam, z))
        for M, rhs in ((A, lambda ix, p, q: lam[ix + (p,)] if p == q else 0), (B, lambda ix, p, q: 1 if p == q else 0)):
            for p in range(2):
                for q in range(2):
                    vs = []
                    for d in lead:
                        v = T.fresh("_m")
                        T.CTX.vdim[v] = S.ix_of(d)
                        vs.append(v)
                    ix = tuple(S.SInt(T.IX.var(v)) for v in vs)
                    l = sum((c.conj(z[ix + (a, p)]) * M[ix + (a, b)] * z[ix + (b, q)] for a in range(2) for b in range(2)), S.asarr(0)).p()
                    # divide out factors without summation index (the number of frames) common to all terms
                    com = [set((a, e) for a, e in f if a.kind == "int") for _, _, f in l.terms]
                    com = T.normalize(T.P(((Fraction(1), (), tuple(set.intersection(*com))),)))
                    r0 = T.pmul(S.asarr(rhs(ix, p, q)).p(), T.ppow(com, -1))
                    l = T.pmul(l, T.ppow(com, -1))
                    j = ops.lead_term(l)
                    lt = T.normalize(T.P((l.terms[j],)))
                    rest = T.normalize(T.P(tuple(t for i, t in enumerate(l.terms) if i != j)))
                    T.rule_from_eq("eigh2", vs, lt, T.psub(r0, rest))
        return lam, z

    return stub


def ip2_post(c, I, N, U, W, V, m, n, pre=""):
    """V: rows after the update; U(i, s, a, b)"""
    row = lambda A, i, k: (lambda a: A[i, k, a])
    for s, o in ((m, n), (n, m)):
        nm = "m" if s is m else "n"
        q = lambda i, x, y, s=s: quad(c, N, lambda a, b: U(i, s, a, b), x, y)
        c.forall(pre + "row %s: unit weighted power" % nm, [I], lambda i: (q(i, row(V, i, s), row(V, i, s)), 1))
        c.forall(pre + "rows of the pair weighted-orthogonal w.r.t. covariance %s" % nm, [I], lambda i: (q(i, row(V, i, o), row(V, i, s)), 0))
        c.forall(
            pre + "row %s weighted-orthogonal to the rows outside the pair" % nm,
            [I, N],
            lambda i, l: (q(i, row(W, i, l), row(V, i, s)), 0),
            where=lambda i, l: [l != m, l != n],
        )


@contract("update_by_ip2_one_pair", "C03", "bss._update_spatial_model.update_by_ip2_one_pair linalg._solve.solve", samples=8)
def ip2one(c):
    I, N = c.dim("I"), c.dim("N", 2)
    W = c.array("W", (I, N, N), "c", invertible=True)
    U = c.array("U", (I, N, N, N), "c", pd=True)
    m, n = c.index("m", N), c.index("n", N)
    c.require(m != n)
    md = c.load(SM)
    if c.symbolic:
        c.stub(md, "eigh2", eigh2_contract(c, []))
    Up = U[:, (m, n), :, :]
    R = md.update_by_ip2_one_pair(W, Up, pair=(m, n), flooring_fn=None)
    c.shape("shape", R, (I, 2, N))

    class V:
        def __getitem__(self, ix):
            i, k, a = ix
            return R[i, 0 if k is m else 1, a]

    ip2_post(c, I, N, lambda i, s, a, b: U[i, s, a, b], W, V(), m, n)
    c.unchanged("filter not modified", W)
    c.unchanged("covariance not modified", U)


def any_pairs(c, N, note):
    """an arbitrary pair selector: a sequence of unknown length of arbitrary pairs of distinct sources"""
    from vc.loader import SymIter

    K = c.dim("npairs", 1)

    def item(k):
        m, n = c.index("m", N), c.index("n", N)
        c.require(m != n)
        note.append((m, n))
        return m, n

    def selector(n_sources, *a, **k):
        c.ensure_int("selector is asked for pairs of all the sources", n_sources == N)
        note.append(("args", a, k))
        return SymIter(K, item)

    return selector


def one_pair_contract(c, N, state):
    """stub of update_by_ip2_one_pair by its contract, relative to the arguments it is given"""

    def stub(demix_filter, weighted_covariance_pair, pair, flooring_fn=None):
        W, Up = demix_filter.copy(), weighted_covariance_pair.copy()
        k = len(state)
        I = W.shape[0]
        R = c.fresh_array("R%d" % k, (I, 2, N), "c")
        state.append((R, W, Up, pair, flooring_fn))
        q = lambda i, s, x, y: c.sum(N, lambda a: c.sum(N, lambda b: x(a) * Up[i, s, a, b] * c.conj(y(b))))
        for s in range(2):
            r = lambda p: (lambda i: (lambda a: R[i, p, a]))
            c.rule("pair power", [I], lambda i, s=s: (q(i, s, r(s)(i), r(s)(i)), 1))
            c.rule("pair orthogonality", [I], lambda i, s=s: (q(i, s, r(1 - s)(i), r(s)(i)), 0))
            c.rule("pair orthogonality conj", [I], lambda i, s=s: (q(i, s, r(s)(i), r(1 - s)(i)), 0))
            c.rule(
                "outside orthogonality",
                [I, N],
                lambda i, l, s=s: (q(i, s, lambda a: W[i, l, a], r(s)(i)), 0),
                guard=lambda i, l: [l != pair[0], l != pair[1]],
            )
        return R

    return stub


for ow in (True, False):
    for sel in ("given", "default"):

        @contract("update_by_ip2 overwrite=%s %s selector" % (ow, sel), "C03", "bss._update_spatial_model.update_by_ip2", samples=8)
        def ip2(c, ow=ow, sel=sel):
            I, N = c.dim("I"), c.dim("N", 2)
            W = c.array("W", (I, N, N), "c", invertible=True)
            U = c.array("U", (I, N, N, N), "c", pd=True)
            md = c.load(SM)
            f = md.update_by_ip2
            if not c.symbolic:
                num_ip2(c, f, W, U, N, ow, sel)
                return
            note, state = [], []
            c.stub(md, "update_by_ip2_one_pair", one_pair_contract(c, N, state))
            kw = {}
            if sel == "given":
                kw["pair_selector"] = any_pairs(c, N, note)
            else:
                c.stub(md, "sequential_pair_selector", any_pairs(c, N, note))

            def check(cx, k, old, new):
                A, B = old["W"], new["W"]
                m, n = [x for x in note if x[0] != "args"][-1]
                cx.forall("rows outside the pair unchanged", [I, N, N], lambda i, l, a: (A[i, l, a], B[i, l, a]), where=lambda i, l, a: [l != m, l != n])
                ip2_post(cx, I, N, lambda i, s, a, b: U[i, s, a, b], A, B, m, n)
                cx.ensure("flooring function handed on", all(getattr(s[4], "__name__", "") == "identity" for s in state))

            def init(cx, st):
                cx.forall("sweep starts from the given filter", [I, N, N], lambda i, n, a: (st["W"][i, n, a], W[i, n, a]))

            c.loops(LoopSpec({"W": W if ow else like(W, W, "c")}, check=check, init=init))
            R = f(W, U, flooring_fn=None, overwrite=ow, **kw)
            if sel == "default":
                c.ensure("default selector visits the sources cyclically (no stop, no step)", [x for x in note if x[0] == "args"] == [("args", (), {})])
            if ow:
                c.ensure("in place", R is W or R.st is W.st)
            else:
                c.unchanged("filter not modified", W)
                c.not_shared("result is a copy", R, W)
            c.unchanged("covariance not modified", U)


def num_ip2(c, f, W, U, N, ow, sel):
    W0 = W.copy()
    I = W.shape[0]
    rng = c.rng
    pairs = [tuple(int(x) for x in rng.choice(N, size=2, replace=False)) for _ in range(int(rng.integers(1, 4)))]
    if sel == "default":
        pairs = [(k, (k + 1) % N) for k in range(N)]
        R = f(W, U, flooring_fn=None, overwrite=ow)
    else:
        R = f(W, U, flooring_fn=None, overwrite=ow, pair_selector=lambda n: iter(pairs))
    if ow:
        c.ensure("in place", R is W)
    else:
        c.ensure("input kept", np.array_equal(W, W0) and not np.shares_memory(R, W))
    c.unchanged("covariance not modified", U)
    # the composition of the single-pair updates, each satisfying the joint equations
    V = W0.copy()
    for m, n in pairs:
        A = V.copy()
        V = f(A.copy(), U, flooring_fn=None, overwrite=False, pair_selector=lambda k: iter([(m, n)]))
        c.ensure("rows outside the pair unchanged", np.array_equal(np.delete(V, (m, n), 1), np.delete(A, (m, n), 1)))
        ip2_post(c, I, N, lambda i, s, a, b: U[i, s, a, b], A, V, m, n)
    same_rows(c, "sweep is the composition of its pair updates", R, V)


def span_residual(v, basis):
    """largest component of v outside the span of the rows of basis"""
    x, *_ = np.linalg.lstsq(basis.T, v, rcond=None)
    return basis.T @ x


def POS(m, n):
    """where an index outside the pair can lie"""
    return [
        ("before both", lambda l: [l < m, l < n]),
        ("after both", lambda l: [l > m, l > n]),
        ("between, n first", lambda l: [l < m, l > n]),
        ("between, m first", lambda l: [l > m, l < n]),
    ]


for sel in ("given", "default"):

    @contract("update_by_iss2 %s selector" % sel, "C03", "bss._update_spatial_model.update_by_iss2", samples=8)
    def iss2(c, sel=sel):
        I, N, J = c.dim("I"), c.dim("N", 2), c.dim("J", 2, nlo=3)
        Y = c.array("Y", (N, I, J), "c")
        ph = c.array("phi", (N, I, J), "f", sign="pos")
        md = c.load(SM)
        f = md.update_by_iss2
        wsum = lambda s, i, x, y: c.sum(J, lambda j: ph[s, i, j] * x(j) * c.conj(y(j)))
        row = lambda A, l, i: (lambda j: A[l, i, j])

        def post(A, B, m, n):
            for nm, w in POS(m, n):
                for s, k in (("m", m), ("n", n)):
                    c.forall("outside source %s weighted-orthogonal to the pair (%s)" % (nm, s), [N, I], lambda l, i: (wsum(l, i, row(B, l, i), row(A, k, i)), 0), where=lambda l, i: w(l))
            for s, o, nm in ((m, n, "m"), (n, m, "n")):
                c.forall("source %s of the pair has unit weighted power" % nm, [I], lambda i: (wsum(s, i, row(B, s, i), row(B, s, i)), J))
                c.forall("pair weighted-orthogonal w.r.t. weight %s" % nm, [I], lambda i: (wsum(s, i, row(B, o, i), row(B, s, i)), 0))

        if not c.symbolic:
            rng = c.rng
            pairs = [tuple(int(x) for x in rng.choice(N, size=2, replace=False)) for _ in range(int(rng.integers(1, 4)))]
            if rng.uniform() < 0.3:
                pairs = [(a - N if rng.uniform() < 0.5 else a, b) for a, b in pairs]
            if sel == "default":
                pairs = [(k % N, (k + 1) % N) for k in range(0, N, 2)]
                R = f(Y, ph, flooring_fn=None)
            else:
                R = f(Y, ph, flooring_fn=None, pair_selector=lambda n: iter(pairs))
            B = Y
            for m, n in pairs:
                A = B
                B = f(A.copy(), ph, flooring_fn=None, pair_selector=lambda k: iter([(m, n)]))
                m, n = m % N, n % N
                post(A, B, m, n)
                for i in range(I):
                    basis = A[[m, n], i]
                    for l in range(N):
                        d = B[l, i] - (A[l, i] if l not in (m, n) else 0)
                        c.ensure("rank-two steering along the pair", np.allclose(span_residual(d, basis), d, rtol=1e-7, atol=1e-8 * (1 + np.abs(d).max())))
            c.forall("sweep is the composition of its pair updates (up to phase)", [N, I, J, J], lambda l, i, j, t: (R[l, i, j] * np.conj(R[l, i, t]), B[l, i, j] * np.conj(B[l, i, t])))
            c.unchanged("input not modified", Y)
            c.unchanged("weight not modified", ph)
            return
        note = []
        c.stub(md, "eigh2", eigh2_contract(c, []))
        kw = {}
        if sel == "given":
            kw["pair_selector"] = any_pairs(c, N, note)
        else:
            c.stub(md, "sequential_pair_selector", any_pairs(c, N, note))

        def check(cx, k, old, new):
            A, B = old["Y"], new["Y"]
            m, n = [x for x in note if x[0] != "args"][-1]
            post(A, B, m, n)
            x = cx.array("x", (I, J), "c")
            for s in (m, n):
                cx.rule("x annihilates the pair", [I], lambda i, s=s: (cx.sum(J, lambda j: A[s, i, j] * x[i, j]), 0))
            # (every x annihilating both sources of the pair annihilates the change: the change lies in their span)
            for nm, w in POS(m, n):
                cx.forall(
                    "rank-two steering along the pair (outside sources %s)" % nm,
                    [N, I],
                    lambda l, i: (cx.sum(J, lambda j: (B[l, i, j] - A[l, i, j]) * x[i, j]), 0),
                    where=lambda l, i: w(l),
                )
            for s in (m, n):
                cx.forall("rank-two steering along the pair (%s)" % ("m" if s is m else "n"), [I], lambda i: (cx.sum(J, lambda j: B[s, i, j] * x[i, j]), 0))

        def init(cx, st):
            cx.forall("sweep starts from the given sources", [N, I, J], lambda n, i, j: (st["Y"][n, i, j], Y[n, i, j]))

        c.loops(LoopSpec({"Y": like(Y)}, check=check, init=init))
        f(Y, ph, flooring_fn=None, **kw)
        if sel == "default":
            a = [x for x in note if x[0] == "args"]
            kk = dict(a[0][2]) if a else {}
            c.ensure("default selector takes pairs of step 2", len(a) == 1 and a[0][1] == () and set(kk) == {"stop", "step"} and kk["step"] == 2)
            c.ensure_int("default selector stops after the last source", kk.get("stop") == N)
        c.unchanged("input not modified", Y)
        c.unchanged("weight not modified", ph)


for ow in (True, False):

    @contract("update_by_block_decomposition_vcd overwrite=%s" % ow, "C03", "bss._update_spatial_model.update_by_block_decomposition_vcd", samples=10, timeout=500)
    def vcd(c, ow=ow):
        """row (i, n): U w + gamma = W_i^{-1} e_n with U = R_ii, gamma = sum_{j != i} R_ij w_j, W_i the updated filter of block i"""
        K, P, N = c.dim("K"), c.dim("P"), c.dim("N", 2)
        W = c.array("W", (K, P, N, N), "c", invertible=True)
        Ud = c.array("U", (K, P, N, N, N), "c", pd=True)
        Ro = c.array("Roff", (K, P, P, N, N, N), "c")
        R = c.fresh_from((K, P, P, N, N, N), lambda k, i, j, n, a, b: c.delta(i, j) * Ud[k, i, n, a, b] + (1 - c.delta(i, j)) * Ro[k, i, j, n, a, b], "c")
        f = c.load(SM).update_by_block_decomposition_vcd
        grad = lambda V, k, i, n, a: c.sum(P, lambda j: c.sum(N, lambda b: R[k, i, j, n, a, b] * c.conj(V[k, j, n, b])))

        def post(c, A, B, i, n):
            c.forall("targeted row stationary: other rows", [K, N], lambda k, m: (c.sum(N, lambda a: B[k, i, m, a] * grad(B, k, i, n, a)), 0), where=lambda k, m: m != n)
            c.forall("targeted row stationary: own row", [K], lambda k: (c.sum(N, lambda a: B[k, i, n, a] * grad(B, k, i, n, a)), 1))

        if not c.symbolic:
            W0 = W.copy()
            # the last row updated is stationary in the result; earlier rows through truncated sweeps are covered by the loop contract
            Q = f(W, R, overwrite=ow)
            post(c, W0, Q, P - 1, N - 1)
            V = W0.copy()
            for i in range(P):
                for n in range(N):
                    for k in range(K):
                        g = sum(R[k, i, j, n] @ V[k, j, n].conj() for j in range(P) if j != i) + np.zeros(N)
                        U = R[k, i, i, n]
                        eta = np.linalg.solve(V[k, i] @ U, np.eye(N)[n])
                        eh = np.linalg.solve(U, g)
                        xi, xh = np.real(eta.conj() @ U @ eta), eta.conj() @ U @ eh
                        cf = 1 / np.sqrt(xi) if P == 1 else xh / (2 * xi) * (1 - np.sqrt(1 + 4 * xi / abs(xh) ** 2))
                        V[k, i, n] = (cf * eta - eh).conj()
            c.forall("sweep solves every row's equation given the rows updated before it", [K, P, N, N], lambda k, i, n, a: (Q[k, i, n, a], V[k, i, n, a]))
            if ow:
                c.ensure("in place", Q is W)
            else:
                c.ensure("input kept", np.array_equal(W, W0) and not np.shares_memory(Q, W))
            return
        outer = {}

        def ocheck(cx, k, old, new):
            pass

        def iinit(cx, st):
            pass

        def check(cx, n, old, new):
            A, B = old["W"], new["W"]
            i = sp.i
            cx.forall("other sources of the block unchanged", [K, N, N], lambda k, m, a: (A[k, i, m, a], B[k, i, m, a]), where=lambda k, m, a: m != n)
            cx.forall("other blocks unchanged", [K, P, N, N], lambda k, j, m, a: (A[k, j, m, a], B[k, j, m, a]), where=lambda k, j, m, a: j != i)
            post(cx, A, B, i, n)

        def init(cx, st):
            cx.forall("sweep starts from the given filter", [K, P, N, N], lambda k, p, n, a: (st["W"][k, p, n, a], W[k, p, n, a]))

        st = {"W": W if ow else like(W, W, "c")}
        sp = LoopSpec(dict(st), check=ocheck, init=init)
        sp2 = LoopSpec(dict(st), check=check)
        c.loops(sp, sp2)
        Q = f(W, R, overwrite=ow)
        c.ensure_int("every neighbour is visited once", sp.n == P)
        if ow:
            c.ensure("in place", Q is W or Q.st is W.st)
        else:
            c.unchanged("filter not modified", W)
            c.not_shared("result is a copy", Q, W)


def mwhere(k):
    return [("before", lambda l: [l < k]), ("after", lambda l: [l > k])]


for nz in (True, False):

    @contract("update_by_ipa normalization=%s" % nz, "C03", "bss._update_spatial_model.update_by_ipa bss._update_spatial_model._psd_inv", samples=8, timeout=300)
    def ipa(c, nz=nz):
        I, N, J = c.dim("I"), c.dim("N", 2), c.dim("J", 2, nlo=6)
        if not c.symbolic:
            c.require(J >= N + 2)
        Y = c.array("Y", (N, I, J), "c")
        ph = c.array("phi", (N, I, J), "f", sign="pos")
        md = c.load(SM)
        f = md.update_by_ipa
        wsum = lambda s, i, x, y: c.sum(J, lambda j: ph[s, i, j] * x(j) * c.conj(y(j)))
        row = lambda A, l, i: (lambda j: A[l, i, j])
        if not c.symbolic:
            R = f(Y, ph, normalization=nz, flooring_fn=None, max_iter=3)
            # the last source updated is stationary in the result
            k = N - 1
            for l in range(N):
                c.forall("other sources weighted-orthogonal to the updated source", [I], lambda i: (wsum(k, i, row(R, l, i), row(R, k, i)), J if l == k else 0))
            # only the documented steering: the demixing of the sweep is a product of matrices that differ from I in row and column k
            real = md.lqpqm2
            qs = []

            def rec(H, v, z, **kw):
                q = real(H, v, z, **kw)
                qs.append((H, v, z, q))
                return q

            c.stub(md, "lqpqm2", rec)
            f(Y, ph, normalization=nz, flooring_fn=None, max_iter=3)
            if len(qs) == N:
                B = Y
                for k in range(N):
                    A = B
                    B = A.copy()
                    o = [l for l in range(N) if l != k]
                    for i in range(I):
                        U = {l: (ph[l, i] * A[:, i]) @ A[:, i].conj().T / J for l in range(N)}
                        a = np.array([np.real(U[l][k, k]) for l in o])
                        b = np.array([U[l][k, l] for l in o])
                        G = np.linalg.inv(U[k])
                        C = G[np.ix_(o, o)].conj()
                        d = G[o, k].conj()
                        Cd = np.linalg.solve(C, d)
                        Hs = C / np.sqrt(np.outer(a, a))
                        v = -b / np.sqrt(a) - np.sqrt(a) * Cd
                        z = np.real(G[k, k]) - np.real(d.conj() @ Cd)
                        tr = np.real(np.trace(Hs)) if nz else 1.0
                        H0, v0, z0, q0 = (x[i] for x in qs[k])
                        c.forall("quadratic programme: matrix", [N - 1, N - 1], lambda x, y: (H0[x, y], Hs[x, y] / tr))
                        c.forall("quadratic programme: linear term", [N - 1], lambda x: (v0[x], v[x]))
                        c.forall("quadratic programme: constant", [1], lambda x: (z0, z / tr))
                        qr = real(H0[None].copy(), v0[None].copy(), np.array([z0]), flooring_fn=None, max_iter=3)[0]
                        c.forall("quadratic programme is solved without a floor", [N - 1], lambda x: (q0[x], qr[x]))
                        q = q0 / np.sqrt(a) - b / a
                        qt = np.zeros(N, complex)
                        qt[k] = 1
                        qt[o] = -q.conj()
                        p = np.linalg.solve(U[k], qt)
                        p = p / np.sqrt(np.real(qt.conj() @ p))
                        B[k, i] = p.conj() @ A[:, i]
                        for x, l in enumerate(o):
                            B[l, i] = A[l, i] + q.conj()[x] * A[k, i]
                c.forall("sweep is the documented steering sequence", [N, I, J], lambda l, i, j: (R[l, i, j], B[l, i, j]))
            c.unchanged("input not modified", Y)
            c.unchanged("weight not modified", ph)
            return
        qs = []

        def lq(H, v, z, *a, **kw):
            """the quadratic programme that is handed over is the documented one (for the current sources and their weights)"""
            at = cur.get("at")
            if at is not None and gs and sv:
                (k, A), (Gin, G), (C, d, Cd) = at, gs[-1], sv[-1]
                Ut = lambda l, i, m, n: wsum(l, i, row(A, m, i), row(A, n, i))  # J times the weighted Gram matrix of weight l
                one = lambda nm: {"before": 0, "after": 1}[nm]
                sides = [("before", lambda x: [x < k]), ("after", lambda x: [x >= k])]
                c.forall("inverted matrix is the weighted Gram matrix", [I, N, N], lambda i, m, n: (Gin[i, m, n] * J, Ut(k, i, m, n)))
                c.forall("constant of the programme, before scaling", [I], lambda i: (z[i] * tr(i, k, A, C), c.re(G[i, k, k]) - c.re(c.sum(N - 1, lambda x: c.conj(d[i, x]) * Cd[i, x]))))
                for nx, wx in sides:
                    ax = lambda i, x: c.re(Ut(x + one(nx), i, k, k)) / J
                    bx = lambda i, x: Ut(x + one(nx), i, k, x + one(nx)) / J
                    c.forall("right-hand side of the elimination (%s)" % nx, [I, N - 1], lambda i, x: (d[i, x], c.conj(G[i, x + one(nx), k])), where=lambda i, x: wx(x))
                    c.forall("linear term of the programme (%s)" % nx, [I, N - 1], lambda i, x: (v[i, x] * c.sqrt(ax(i, x)), -bx(i, x) - ax(i, x) * Cd[i, x]), where=lambda i, x: wx(x))
                    for ny, wy in sides:
                        ay = lambda i, y: c.re(Ut(y + one(ny), i, k, k)) / J
                        c.forall("matrix of the elimination (%s, %s)" % (nx, ny), [I, N - 1, N - 1], lambda i, x, y: (C[i, x, y], c.conj(G[i, x + one(nx), y + one(ny)])), where=lambda i, x, y: wx(x) + wy(y))
                        c.forall("matrix of the programme (%s, %s)" % (nx, ny), [I, N - 1, N - 1], lambda i, x, y: (H[i, x, y] * tr(i, k, A, C) * c.sqrt(ax(i, x)) * c.sqrt(ay(i, y)), C[i, x, y]), where=lambda i, x, y: wx(x) + wy(y))
            q = c.fresh_array("q%d" % len(qs), v.shape, "c")
            qs.append(q)
            return q

        c.stub(md, "lqpqm2", lq)
        sv, cur, gs = [], {}, []

        def tr(i, k, A, C):
            """trace of the unscaled programme matrix (one if no scaling is asked for)"""
            if not nz:
                return 1
            L, _, Rt = c.np.split(c.np.eye(N), [k, k + 1], axis=-1)
            E = c.np.concatenate([L, Rt], axis=-1)  # selects the other sources
            return c.sum(N - 1, lambda x: c.re(C[i, x, x]) / c.sum(N, lambda l: c.re(wsum(l, i, row(A, k, i), row(A, k, i))) / J * E[l, x]))

        pinv = md._psd_inv

        def pinv_rec(U, *a, **kw):
            r = pinv(U, *a, **kw)
            gs.append((U, r))
            return r

        c.stub(md, "_psd_inv", pinv_rec)
        solve, maximum = md.solve, md.np.maximum

        def solve_rec(A, b, *a, **k):
            r = solve(A, b, *a, **k)
            sv.append((A, b, r))
            return r

        def max_lemma(x, y, *a, **k):
            """lemma: b^H A^-1 b >= 0 for positive semidefinite A, so the clipping at zero is the identity;
            A (the weighted Gram matrix of the sources, positive weights) and b are those of the last linear solve"""
            if sv and not a and not k and getattr(x, "ndim", 0) == 2 and np.isscalar(y) and y == 0:
                A, b, r = sv[-1]
                if len(b.shape) == 2 and [d1 is d2 for d1, d2 in zip(x.shape, (b.shape[0], 1))]:
                    q = c.fresh_from((I,), lambda i: c.sum(N, lambda l: c.conj(b[i, l]) * r[i, l]), "c")
                    c.forall("clipped power is the quadratic form of the solve", [I], lambda i: (x[i, 0], c.re(q[i])))
                    k = cur.get("at")
                    if k is not None:
                        c.forall("matrix of the solve is the weighted Gram matrix of the sources", [I, N, N], lambda i, l, m: (A[i, l, m] * J, wsum(k[0], i, row(k[1], l, i), row(k[1], m, i))))
                        return x
            return maximum(x, y, *a, **k)

        c.stub(md, "solve", solve_rec)
        c.stub(md.np, "maximum", max_lemma)

        def check(cx, k, old, new):
            A, B = old["Y"], new["Y"]
            for nm, w in mwhere(k):
                cx.forall(
                    "other sources (%s) steered along the current source only" % nm,
                    [N, I, J, J],
                    lambda n, i, j, t: ((B[n, i, j] - A[n, i, j]) * A[k, i, t], (B[n, i, t] - A[n, i, t]) * A[k, i, j]),
                    where=lambda n, i, j, t: w(n),
                )
                cx.forall(
                    "other sources (%s) weighted-orthogonal to the updated source" % nm,
                    [N, I],
                    lambda n, i: (wsum(k, i, row(B, n, i), row(B, k, i)), 0),
                    where=lambda n, i: w(n),
                )
            cx.forall("updated source has unit weighted power", [I], lambda i: (wsum(k, i, row(B, k, i), row(B, k, i)), J))
            if qs:
                at = lambda n, i: cx.re(wsum(n, i, row(A, k, i), row(A, k, i))) / J
                bt = lambda n, i: wsum(n, i, row(A, k, i), row(A, n, i)) / J
                for nm, w in mwhere(k):
                    off = 0 if nm == "before" else 1
                    cx.forall(
                        "other sources (%s) steered by the minimiser of the programme" % nm,
                        [N, I, J],
                        lambda n, i, j: ((B[n, i, j] - A[n, i, j]) * at(n, i), cx.conj(qs[-1][i, n - off] * cx.sqrt(at(n, i)) - bt(n, i)) * A[k, i, j]),
                        where=lambda n, i, j: w(n),
                    )

        def init(cx, st):
            cx.forall("sweep starts from the given sources", [N, I, J], lambda n, i, j: (st["Y"][n, i, j], Y[n, i, j]))

        sp = LoopSpec({"Y": like(Y)}, check=check, init=init, assume=lambda cx, k, st: cur.update(at=(k, st["Y"])))
        c.loops(sp)
        f(Y, ph, normalization=nz, flooring_fn=None)
        c.ensure_int("every source is visited once", sp.n == N)
        c.unchanged("input not modified", Y)
        c.unchanged("weight not modified", ph)


for kind in ("c", "f"):

    @contract("_psd_inv %s" % ("complex" if kind == "c" else "real"), "C03", "bss._update_spatial_model._psd_inv", samples=6)
    def psd_inv(c, kind=kind):
        I, N = c.dim("I"), c.dim("N", 1)
        A = c.array("A", (I, N, N), kind, pd=True)
        md = c.load(SM)
        if not hasattr(md, "_psd_inv"):
            raise NotImplementedError
        R = md._psd_inv(A, flooring_fn=None)
        c.forall("inverse", [I, N, N], lambda i, a, b: (c.sum(N, lambda k: R[i, a, k] * A[i, k, b]), c.delta(a, b)))
        g = c.ufunc("floor", sign="pos")
        F = md._psd_inv(A, flooring_fn=g)
        lam, P = c.np.linalg.eigh(A)
        gl = g(lam)
        c.forall("floored: inverse on the eigenvectors with floored eigenvalues", [I, N, N], lambda i, a, k: (c.sum(N, lambda b: F[i, a, b] * P[i, b, k]) * gl[i, k], P[i, a, k]))
        c.unchanged("matrix not modified", A)


@bounded(
    "spatial updates without floor at extreme scales",
    "C03",
    "2-4 sources, 1-3 bins, weights scaled per source by powers of four between 4^-45 and 4^45 (update_by_iss1: 4^-45 to 1, update_by_ipa: one common scale of 4^-18 to 4^18); all five updates with flooring_fn=None",
    "a floating-point statement: the contracts are over the reals, where a floor of 1e-10 that should not be there is only visible as a term",
)
def noscale(b):
    """unit weighted power of each source with respect to its own weights: dividing the weights of source n by s^2 multiplies its row by s, for all s
    when no floor is asked for (scales are powers of two, so that rescaling is exact in floating point)"""
    md = b.load(SM)
    rng = b.rng
    for k in range(12 if b.tier == "quick" else 60):
        N, I = int(rng.integers(2, 5)), int(rng.integers(1, 4))
        J = 3 * N
        cx = lambda *s: rng.standard_normal(s) + 1j * rng.standard_normal(s)
        Y, ph, W = cx(N, I, J), rng.uniform(0.5, 2, (N, I, J)), cx(I, N, N)
        e = rng.integers(-45, 46, size=N)
        for nm in ("update_by_ip1", "update_by_ip2", "update_by_iss1", "update_by_iss2", "update_by_ipa"):
            f = getattr(md, nm)
            with b.case("%s %d" % (nm, k)):
                if nm == "update_by_ipa":
                    e = np.full(N, int(rng.integers(-18, 19)))
                elif "iss1" in nm:
                    e = np.abs(e)  # y - (1 - 1/sqrt(d)) y loses all digits for large d
                s2 = 4.0 ** e
                if nm in ("update_by_ip1", "update_by_ip2"):
                    U = np.einsum("nij,aij,bij->inab", ph, Y, Y.conj()) / J
                    kw = dict(flooring_fn=None, overwrite=False)
                    one, two = f(W, U, **kw), f(W, U / s2[:, None, None], **kw)
                    two = two / (2.0 ** e)[:, None]
                    G = lambda R: np.einsum("ina,inb->inab", R, R.conj())
                elif nm == "update_by_ipa":
                    p2 = ph / s2[:, None, None]
                    R = f(Y, p2, flooring_fn=None)
                    q = np.einsum("ij,nij,ij->in", p2[-1], R, R[-1].conj()) / J
                    # sources other than the last keep their own scale, so the correlations are compared relative to it
                    p = np.sqrt(np.einsum("ij,nij->in", p2[-1], np.abs(R) ** 2) / J)
                    b.close("last source: unit weighted power, weighted-orthogonal to the others", q / p, np.tile(np.eye(N)[-1], (I, 1)), 1e-4)
                    continue
                else:
                    one, two = f(Y, ph, flooring_fn=None), f(Y, ph / s2[:, None, None], flooring_fn=None)
                    two = two / (2.0 ** e)[:, None, None]
                    G = lambda R: np.einsum("nij,nit->nijt", R, R.conj())
                # up to the phase of each updated row
                b.close("row scales with its own weights", G(two), G(one), 1e-6)
