"""Permutation alignment (C18; C09 tags: inputs untouched unless overwriting is requested)."""
import itertools

import numpy as np

from vc.explore import LoopSpec
from vc.symnp import ix_of
from vc.registry import bounded, contract

PA = "ssspy.algorithm.permutation_alignment"


def same(a, b):
    """identical symbolic elements"""
    from vc import symnp as S

    return S.asarr(a).p() is S.asarr(b).p()


def state_like(shape, not_storages=(), kind=None, content=None):
    def pred(v):
        sh = getattr(v, "shape", None)
        if content is not None and (sh is None or len(sh) != len(shape) or v.ndim != len(shape)):
            return False
        if content is not None:
            from vc import terms as T

            ix = [T.IX.var("_probe%d" % k) for k in range(len(shape))]
            if not all(ix_of(a) is ix_of(b) for a, b in zip(sh, shape)) or v.at(*ix) is not content.at(*ix):
                return False
        return sh is not None and len(sh) == len(shape) and all(ix_of(a) is ix_of(b) for a, b in zip(sh, shape)) and all(v.st is not s.st for s in not_storages) and (kind is None or v.kind == kind)

    return pred


def oracle(Y, floor):
    """greedy alignment, written from the documentation: permutation of every bin"""
    I, N, J = Y.shape
    P = np.abs(Y)
    P = P / floor(np.sqrt(np.sum(P**2, axis=1, keepdims=True)))
    C = np.einsum("int,imt->i", P, P)
    order = np.argsort(C)
    crit = P[order[0]].copy()
    perms = np.tile(np.arange(N), (I, 1))
    for i in order[1:]:
        best = max(itertools.permutations(range(N)), key=lambda p: np.sum(crit * P[i][list(p)]))
        perms[i] = best
        crit = crit + P[i][list(best)]
    return perms


def names(n_args):
    return ["sequence"] + ["arg%d" % k for k in range(n_args)]


for Nc in (2, 3):
    for ow in (True, False):
        for n_args in (0, 1, 2):
            for kind in "cf":
                if (n_args != 1 and kind == "f") or (Nc == 3 and (n_args != 1 or kind == "f")):
                    continue

                @contract(
                    "correlation_based_permutation_solver N=%d %s, %d accompanying arrays, overwrite=%s" % (Nc, {"c": "complex", "f": "real"}[kind], n_args, ow),
                    "C18 C09",
                    "algorithm.permutation_alignment.correlation_based_permutation_solver",
                    samples=5,
                    timeout=500,
                )
                def corr(c, Nc=Nc, ow=ow, n_args=n_args, kind=kind):
                    I, J, N = c.dim("I", 2), c.dim("J", 2), Nc
                    Y = c.array("Y", (I, N, J), kind)
                    A = []
                    for k in range(n_args):
                        tail = (c.dim("M", 1),) if k == 0 else ()
                        A.append(c.array("A%d" % k, (I, N) + tail, "c"))
                    g = c.ufunc("floor", sign="pos")
                    f = c.load(PA).correlation_based_permutation_solver
                    if not c.symbolic:
                        perms = oracle(Y, g)
                        Y0, A0 = Y.copy(), [a.copy() for a in A]
                        out = f(Y, *A, flooring_fn=g, overwrite=ow)
                        outs = check_structure(c, out, n_args)
                        rows = np.arange(I)[:, None]
                        for nm, o, x0 in zip(names(n_args), outs, [Y0] + A0):
                            R = x0[rows, perms]
                            c.ensure("%s: shape" % nm, o.shape == x0.shape)
                            c.forall("%s is the input re-indexed by the best-correlated permutation" % nm, list(x0.shape), lambda *i, o=o, R=R: (o[i], R[i]))
                        frame(c, ow, outs, [Y] + A)
                        return
                    ins = [Y] + A
                    e = [a.copy() for a in ins]  # entry values
                    states = {}
                    for nm, x in zip(names(n_args), ins):
                        states[nm] = x if ow else state_like(x.shape, [x] + e, x.kind, content=x)
                    states["crit"] = state_like((N, J), kind="f")
                    perms = list(itertools.permutations(range(N)))
                    box = {}

                    def Pn(i, n, t):
                        """normalised amplitude of the given sequence"""
                        from vc import symnp as S

                        nrm = c.sqrt(sum((c.abs2(e[0][i, q, t]) for q in range(N)), 0))
                        return c.abs(e[0][i, n, t]) / g(nrm)

                    def init(cx, st):
                        m0 = box["order"][0]
                        cx.forall("reference starts as the normalised amplitude of the first bin", [N, J], lambda n, t: (st["crit"][n, t], Pn(m0, n, t)))
                        for nm, x in zip(names(n_args), e):
                            cx.forall("%s: alignment starts from the given values" % nm, list(x.shape), lambda *i, nm=nm, x=x: (st[nm][i], x[i]))

                    def check(cx, k, old, new):
                        m = box["order"][k + 1]  # bin processed by this iteration
                        m = cx_int(m)
                        # other bins keep their values
                        for nm, x in zip(names(n_args), e):
                            cx.forall("%s: only the processed bin changes" % nm, list(x.shape), lambda *i, nm=nm: (new[nm][i], old[nm][i]), where=lambda *i: [i[0] != m])
                        t = cx.index("frame", J)
                        chosen = []
                        for p in perms:
                            if all(same(new["sequence"][m, n, t], old["sequence"][m, p[n], t]) for n in range(N)):
                                chosen.append(p)
                        cx.ensure("sequence: the processed bin is re-indexed by a permutation", len(chosen) == 1, "matching permutations %s" % chosen)
                        if len(chosen) != 1:
                            return
                        p = chosen[0]
                        for nm, x in zip(names(n_args), e):
                            for n in range(N):
                                cx.forall("%s: the processed bin is re-indexed by the same permutation" % nm, [1] + list(x.shape[2:]), lambda z, *i, nm=nm, n=n: (new[nm][(m, n) + i], old[nm][(m, p[n]) + i]))
                        sc = lambda q: sum((cx.sum(J, lambda t, n=n: old["crit"][n, t] * Pn(m, q[n], t)) for n in range(N)), 0)
                        for q in perms:
                            if q != p:
                                cx.forall_pos("no other permutation correlates better with what has been aligned", [1], lambda z, q=q: sc(p) - sc(q))
                        cx.forall("aligned amplitudes are added to the reference", [N, J], lambda n, t: (new["crit"][n, t], old["crit"][n, t] + pick(cx, n, p, lambda r: Pn(m, r, t))))

                    sp = LoopSpec(states, check=check, init=init)
                    c.loops(sp)
                    real = c.np.argsort

                    def argsort(a, *r, **k):
                        box["order"] = real(a, *r, **k)
                        # the processing order ranks the bins by the total correlation of their normalised amplitudes
                        key = a
                        from vc import symnp as S

                        c.forall("bins are ranked by their total amplitude correlation", [I], lambda i: (key[i], sum((c.sum(J, lambda t, n=n, q=q: Pn(i, n, t) * Pn(i, q, t)) for n in range(N) for q in range(N)), 0)))
                        return box["order"]

                    c.stub(c.load(PA).np, "argsort", argsort)
                    out = f(*ins, flooring_fn=g, overwrite=ow)
                    c.ensure_int("every bin after the first is processed", sp.n == I - 1)
                    outs = check_structure(c, out, n_args)
                    frame(c, ow, outs, ins)


def cx_int(x):
    from vc import symnp as S

    return S.SInt(S.ix_of(x)) if not isinstance(x, (int, S.SInt)) else x


def pick(cx, n, p, f):
    """f(p[n]) for a symbolic source index n"""
    return sum((cx.delta(n, k) * f(p[k]) for k in range(len(p))), 0)


def check_structure(c, out, n_args):
    if n_args == 0:
        c.ensure("a single array is returned", not isinstance(out, tuple))
        return [out]
    c.ensure("sequence and accompanying arrays are returned", isinstance(out, tuple) and len(out) == 2)
    if n_args == 1:
        return list(out)
    c.ensure("accompanying arrays are returned in order", isinstance(out[1], (tuple, list)) and len(out[1]) == n_args)
    return [out[0]] + list(out[1])


def frame(c, ow, outs, ins):
    for k, (o, x) in enumerate(zip(outs, ins)):
        if not ow:
            c.unchanged("argument %d not modified" % k, x)
            c.not_shared("result %d is not shared with the argument" % k, o, x)


@contract("permutation solvers reject mismatched arrays", "C18", "algorithm.permutation_alignment.correlation_based_permutation_solver algorithm.permutation_alignment.score_based_permutation_solver", samples=4)
def reject(c):
    m = c.load(PA)
    I, N, J, K = c.dim("I", 2), 2, c.dim("J", 2), c.dim("K", 1)
    Y = c.array("Y", (I, N, J), "f")
    A = c.array("A", (I, N + 1, K), "f")
    Bm = c.array("B", (I + 1, N, K), "f")
    for f in (m.correlation_based_permutation_solver, m.score_based_permutation_solver):
        nm = f.__name__
        c.raises(nm + ": another number of sources", ValueError, lambda: f(Y, A))
        c.raises(nm + ": another number of bins", ValueError, lambda: f(Y, Bm))
        c.raises(nm + ": second array checked too", ValueError, lambda: f(Y, Y, Bm))
        c.raises(nm + ": matrix sequence", AssertionError, lambda: f(c.array("Z" + nm, (I, J), "f")))
    c.unchanged("sequence not modified", Y)


def scores_oracle(S, A, global_iter, local_iter, floor):
    """score-based alignment written from the documentation: returns the permutation of every bin"""
    I, N, J = S.shape
    perms = [np.array(p) for p in itertools.permutations(range(N))]
    Z = (S - S.mean(axis=-1, keepdims=True)) / S.std(axis=-1, keepdims=True)
    tot = np.tile(np.arange(N), (I, 1))

    def score(z, c, std):
        corr = np.mean(z[:, None] * c[None], axis=-1) / floor(std)
        return 2 * np.trace(corr) - np.sum(corr)

    for _ in range(global_iter):
        c = Z.mean(axis=0)
        std = c.std(axis=-1, keepdims=True)
        for i in range(I):
            p = max(perms, key=lambda p: score(Z[i, p], c, std))
            tot[i] = tot[i][p]
            Z[i] = Z[i][p]
    for _ in range(local_iter):
        for i in range(I):
            R = set(range(max(0, i - 3), min(I - 1, i + 3) + 1)) - {i}
            R |= set(range(max(0, i // 2 - 1), min(I - 1, i // 2 + 1) + 1))
            R |= set(range(max(0, 2 * i - 1), min(I - 1, 2 * i + 1) + 1))
            p = max(perms, key=lambda p: sum(score(Z[i, p], Z[r], std) for r in sorted(R)))
            tot[i] = tot[i][p]
            Z[i] = Z[i][p]
    return tot


@bounded(
    "alignment only permutes, consistently; greedy optimality; relabelling",
    "C18 C09",
    bound="2-4 sources, 1-12 bins, 8-40 frames (and five larger sizes up to 6 sources, 150 bins, 300 frames), real and complex, 0-3 accompanying arrays of 2-4 axes, overwrite on and off, permutations from the arrays themselves",
    reason="symbolic contracts cover 2 and 3 sources of the correlation-based solver; the score-based solver needs arg-max over data and index sets of data-dependent size",
)
def align(b):
    m = b.load(PA)
    rng = b.rng
    far = [(2, 150, 20), (2, 3, 300), (3, 140, 270), (5, 9, 20), (6, 3, 12)]
    for t in range((60 if b.tier == "quick" else 600) + len(far)):
        N, I, J = int(rng.integers(2, 5)), int(rng.integers(1, 13)), int(rng.integers(8, 41))
        na = int(rng.integers(0, 4))
        if t < len(far):
            (N, I, J), na = far[t], t % 3
        for solver in ("correlation", "score"):
            cplx = solver == "correlation" and rng.uniform() < 0.5
            base = rng.gamma(0.4, 1.0, (1, N, J))
            Y = base * rng.uniform(0.5, 2, (I, N, 1)) + 0.3 * rng.gamma(0.5, 1.0, (I, N, J))
            for i in range(I):
                Y[i] = Y[i][rng.permutation(N)]
            if cplx:
                Y = Y * np.exp(2j * np.pi * rng.uniform(size=Y.shape))
            A = [rng.standard_normal((I, N) + tuple(rng.integers(1, 4, size=int(rng.integers(1 if solver == "score" else 0, 3))))) for _ in range(na)]
            for ow in (True, False):
                gi, li = int(rng.integers(1, 4)), int(rng.integers(0, 3))
                kw = {} if solver == "correlation" else dict(global_iter=gi, local_iter=li)
                fn = getattr(m, solver + "_based_permutation_solver")
                with b.case("%s N=%d I=%d J=%d args=%d overwrite=%s %s" % (solver, N, I, J, na, ow, kw)):
                    Yi, Ai = Y.copy(), [a.copy() for a in A]
                    out = fn(Yi, *Ai, overwrite=ow, **kw)
                    outs = [out] if na == 0 else ([out[0], out[1]] if na == 1 else [out[0]] + list(out[1]))
                    if not ow:
                        b.same("sequence untouched without overwrite", Yi, Y)
                        for x, y in zip(Ai, A):
                            b.same("accompanying arrays untouched without overwrite", x, y)
                        b.check("results not shared", not any(np.shares_memory(o, x) for o in outs for x in [Yi] + Ai))
                    perm = np.array([[np.flatnonzero(np.all(Y[i] == outs[0][i, n], axis=-1))[0] if np.any(np.all(Y[i] == outs[0][i, n], axis=-1)) else -1 for n in range(N)] for i in range(I)])
                    b.check("a permutation in every bin", all(sorted(p) == list(range(N)) for p in perm))
                    rows = np.arange(I)[:, None]
                    for k, (o, x) in enumerate(zip(outs[1:], A)):
                        b.same("accompanying array re-indexed by the same permutation", o, x[rows, perm])
                    fl = lambda x: np.maximum(x, 1e-10)
                    if solver == "correlation":
                        b.same("documented greedy permutation", perm, oracle(Y, fl))
                        # relabelling within bins
                        Q = np.array([rng.permutation(N) for _ in range(I)])
                        Z = fn(Y[rows, Q].copy(), overwrite=True)
                        ok = [q for q in itertools.permutations(range(N)) if np.array_equal(Z, outs[0][:, list(q)])]
                        b.check("relabelled input gives the same result up to one global relabelling", len(ok) >= 1)
                    else:
                        b.same("documented best-scoring permutation", perm, scores_oracle(Y, A, gi, li, fl))


@bounded(
    "alignment only permutes: local optimisation on unstructured sequences",
    "C18",
    bound="2-3 sources, 1-24 bins, 6-12 frames of independent noise (so that every member of the documented neighbourhood matters)",
    reason="arg-max over data and index sets of data-dependent size",
)
def local(b):
    f = b.load(PA).score_based_permutation_solver
    rng = b.rng
    for t in range(60 if b.tier == "quick" else 400):
        N, I, J = int(rng.integers(2, 4)), int(rng.integers(1, 25)), int(rng.integers(6, 13))
        gi, li = int(rng.integers(0, 2)) if t % 2 else 1, int(rng.integers(1, 3))
        gi = max(gi, 1)
        Y = rng.gamma(0.5, 1.0, (I, N, J)) * 10 ** rng.uniform(-1, 1, (I, N, 1))
        eps = 1e-10 if t % 3 else 0.5
        fl = lambda x: np.maximum(x, eps)
        with b.case("noise N=%d I=%d J=%d global=%d local=%d floor=%g" % (N, I, J, gi, li, eps)):
            out = f(Y.copy(), global_iter=gi, local_iter=li, flooring_fn=fl)
            perm = scores_oracle(Y, [], gi, li, fl)
            b.same("documented best-scoring permutation", out, Y[np.arange(I)[:, None], perm])


@bounded(
    "deprecated wrapper",
    "C18",
    bound="20 random arrays, 2-3 sources",
    reason="a delegation; compared with the function it delegates to",
)
def wrapper(b):
    import warnings

    w = b.load("ssspy.bss._solve_permutation").correlation_based_permutation_solver
    f = b.load(PA).correlation_based_permutation_solver
    rng = b.rng
    for t in range(20):
        N = int(rng.integers(2, 4))
        Y = rng.standard_normal((5, N, 9)) + 1j * rng.standard_normal((5, N, 9))
        A = rng.standard_normal((5, N, N))
        for ow in (True, False):
            with b.case("wrapper N=%d overwrite=%s" % (N, ow)):
                Y1, A1, Y2, A2 = Y.copy(), A.copy(), Y.copy(), A.copy()
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    y, a = w(Y1, A1, overwrite=ow)
                y2, a2 = f(Y2, A2, overwrite=ow)
                b.same("sequence", y, y2)
                b.same("array", a, a2)
                b.same("overwriting as requested", Y1, Y2)
                if not ow:
                    b.same("input untouched", Y1, Y)
