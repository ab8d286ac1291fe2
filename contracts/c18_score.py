"""Score-based permutation alignment (C18): symbolic contracts."""
import itertools

import numpy as np

from vc.explore import LoopSpec
from vc.registry import contract

from contracts.c18_permutation import cx_int, check_structure, frame, names, same, state_like
from vc.symnp import ix_of

PA = "ssspy.algorithm.permutation_alignment"

for tail in (1, 2):

    @contract("_parallel_sort, %d trailing axes" % tail, "C18", "algorithm.permutation_alignment._parallel_sort", samples=6)
    def psort(c, tail=tail):
        I, N = c.dim("I"), c.dim("N", 2)
        sh = (I, N) + tuple(c.dim("M%d" % k) for k in range(tail))
        X = c.array("X", sh, "c")
        P = c.intarray("order", (I, N), N)
        R = c.load(PA)._parallel_sort(X, P)
        c.ensure("shape", R.ndim == 2 + tail)
        c.forall("entry n of every bin is the source the index names", list(sh), lambda i, n, *t: (R[(i, n) + t], X[(i, P[i, n]) + t]))
        c.unchanged("input not modified", X)


def table(perms, k, i, n, delta):
    """[perms[k_i][n] == v] for every v"""
    return [sum((delta(k[i], q) * delta(n, m) for q, p in enumerate(perms) for m in range(len(p)) if p[m] == v), 0) for v in range(len(perms[0]))]


def arrays(c, N, n_args):
    I, J = c.dim("I", 2), c.dim("J", 2)
    S = c.array("S", (I, N, J), "f")
    A = [c.array("A%d" % k, (I, N) + ((c.dim("M", 1),) if k == 0 else (1, 2)), "c" if k else "f") for k in range(n_args)]
    return I, J, S, A


for Nc in (2, 3):
    for ow in (True, False):
        for n_args in (0, 1, 2):
            if Nc == 3 and n_args != 1:
                continue

            @contract(
                "score_based_permutation_solver global phase N=%d, %d accompanying arrays, overwrite=%s" % (Nc, n_args, ow),
                "C18 C09",
                "algorithm.permutation_alignment.score_based_permutation_solver",
                samples=5,
            )
            def glob(c, Nc=Nc, ow=ow, n_args=n_args):
                N = Nc
                md = c.load(PA)
                perms = list(itertools.permutations(range(N)))
                I, J, S, A = arrays(c, N, n_args)
                g = c.ufunc("floor", sign="pos")
                ins = [S] + A
                e = [x.copy() for x in ins]
                keys = []
                if c.symbolic:
                    K = c.intarray("best", (I,), len(perms))

                    def argmax(x, axis=None, **k):
                        keys.append((x, axis))
                        c.ensure("one score per bin and permutation is ranked over the permutations", x.ndim == 2 and axis in (1, -1) and ix_of(x.shape[0]) is ix_of(I) and x.shape[1] == len(perms))
                        return K

                    c.stub(md.np, "argmax", argmax)
                out = md.score_based_permutation_solver(*ins, global_iter=1, local_iter=0, flooring_fn=g, overwrite=ow)
                outs = check_structure(c, out, n_args)
                if c.symbolic:
                    if len(keys) != 1:
                        raise NotImplementedError("one ranking per sweep expected")
                    for nm, o, x in zip(names(n_args), outs, e):
                        c.forall(
                            "%s is the input re-indexed by the chosen permutation of every bin" % nm,
                            list(x.shape),
                            lambda i, n, *t, o=o, x=x: (o[(i, n) + t], sum((z * x[(i, v) + t] for v, z in enumerate(table(perms, K, i, n, c.delta))), 0)),
                        )
                else:
                    one_permutation(c, outs, e)
                frame(c, ow, outs, ins)


def one_permutation(c, outs, e):
    """every array is the given one re-indexed, bin by bin, by one common permutation"""
    N = e[0].shape[1]
    for i in range(e[0].shape[0]):
        ok = [p for p in itertools.permutations(range(N)) if all(np.array_equal(o[i], x[i][list(p)]) for o, x in zip(outs, e))]
        c.ensure("bin %d: one permutation re-indexes every array" % i, len(ok) >= 1)


# ---------------------------------------------------------------- any number of global sweeps: one sweep re-indexes everything alike
for ow in (True, False):

    @contract(
        "score_based_permutation_solver any number of global sweeps, overwrite=%s" % ow,
        "C18 C09",
        "algorithm.permutation_alignment.score_based_permutation_solver",
        samples=4,
    )
    def sweeps(c, ow=ow):
        N, n_args = 2, 2
        md = c.load(PA)
        perms = list(itertools.permutations(range(N)))
        I, J, S, A = arrays(c, N, n_args)
        n_iter = c.dim("global_iter", 1)
        g = c.ufunc("floor", sign="pos")
        ins = [S] + A
        e = [x.copy() for x in ins]
        if not c.symbolic:
            out = md.score_based_permutation_solver(*ins, global_iter=n_iter, local_iter=0, flooring_fn=g, overwrite=ow)
            outs = check_structure(c, out, n_args)
            one_permutation(c, outs, e)
            frame(c, ow, outs, ins)
            return
        K = c.intarray("best", (I,), len(perms))
        c.stub(md.np, "argmax", lambda x, axis=None, **k: K)
        Z = (e[0] - e[0].mean(axis=-1, keepdims=True)) / e[0].std(axis=-1, keepdims=True)
        states = {"sequence": state_like(S.shape, [] if ow else [S] + e, "f", content=S), "Z": state_like(S.shape, [S] + e, "f", content=Z)}
        for nm, x in zip(names(n_args)[1:], A):
            states[nm] = x if ow else state_like(x.shape, [x] + e, x.kind, content=x)

        def init(cx, st):
            for nm, x in zip(names(n_args), e):
                cx.forall("%s: alignment starts from the given values" % nm, list(x.shape), lambda *i, nm=nm, x=x: (st[nm][i], x[i]))

        def check(cx, k, old, new):
            for nm, x in zip(names(n_args), e):
                cx.forall(
                    "%s: a sweep re-indexes every bin by the chosen permutation" % nm,
                    list(x.shape),
                    lambda i, n, *t, nm=nm: (new[nm][(i, n) + t], sum((z * old[nm][(i, v) + t] for v, z in enumerate(table(perms, K, i, n, cx.delta))), 0)),
                )

        sp = LoopSpec(states, check=check, init=init)
        c.loops(sp)
        out = md.score_based_permutation_solver(*ins, global_iter=n_iter, local_iter=0, flooring_fn=g, overwrite=ow)
        c.ensure_int("every sweep is carried out", sp.n == n_iter)
        outs = check_structure(c, out, n_args)
        frame(c, ow, outs, ins)


class Near:
    """a set of bins whose members the argument does not use"""

    def __init__(self, *a):
        pass

    def __or__(self, o):
        return self

    __ror__ = __or__


for Nc in (2, 3):
    for ow in (True, False):

        @contract(
            "score_based_permutation_solver local phase N=%d, overwrite=%s" % (Nc, ow),
            "C18 C09",
            "algorithm.permutation_alignment.score_based_permutation_solver",
            samples=4,
            timeout=500,
        )
        def local(c, Nc=Nc, ow=ow):
            N, n_args = Nc, 2
            md = c.load(PA)
            perms = list(itertools.permutations(range(N)))
            I, J, S, A = arrays(c, N, n_args)
            g = c.ufunc("floor", sign="pos")
            ins = [S] + A
            e = [x.copy() for x in ins]
            call = lambda: md.score_based_permutation_solver(*ins, global_iter=1, local_iter=1, flooring_fn=g, overwrite=ow)
            if not c.symbolic:
                outs = check_structure(c, call(), n_args)
                one_permutation(c, outs, e)
                frame(c, ow, outs, ins)
                return
            from vc import symnp

            K = c.intarray("best", (I,), len(perms))
            near = c.intarray("near", (c.dim("L", 1),), I)

            def argmax(x, axis=None, **k):
                if x.ndim == 2:
                    return K
                return symnp.EXPLORER.choose([("best permutation %s" % (p,), [], None) for p in perms])

            c.stub(md.np, "argmax", argmax)
            real_list, real_sorted = list, sorted
            c.stub(md, "set", Near)
            c.stub(md, "list", lambda *a: a[0] if a and isinstance(a[0], Near) else real_list(*a))
            c.stub(md, "sorted", lambda x, **k: near if isinstance(x, Near) else real_sorted(x, **k))
            # clipped ends of the neighbourhood: any nonnegative integers (they only bound the sets above)
            clips = []

            def clip(real):
                def f(*a, **k):
                    if k or not any(isinstance(x, symnp.SInt) for x in a):
                        return real(*a, **k)
                    clips.append(1)
                    return c.dim("clip%d" % len(clips), 0)

                return f

            c.stub(md, "max", clip(max))
            c.stub(md, "min", clip(min))
            done = []

            def psort(X, idx):
                # contract of _parallel_sort, checked above; here any re-indexed arrays do
                R = c.array("after_global%d" % len(done), X.shape, X.kind)
                done.append((X, R.copy()))
                return R

            c.stub(md, "_parallel_sort", psort)
            seen = {}

            def content(k):
                def pred(v):
                    if k >= len(done) or getattr(v, "shape", None) is None:
                        return False
                    return state_like(done[k][1].shape, [d[1] for d in done] + e + ([] if ow and k > 1 else ins), content=done[k][1])(v)

                return pred

            # the first sorted array is the normalised sequence, then the sequence, then the accompanying arrays
            states = {"Z": content(0), "sequence": content(1)}
            for k, (nm, x) in enumerate(zip(names(n_args)[1:], A)):
                states[nm] = x if ow else content(2 + k)

            def check(cx, k, old, new):
                m = cx_int(k)
                for nm, x in zip(names(n_args), e):
                    cx.forall("%s: only the processed bin changes" % nm, real_list(x.shape), lambda *i, nm=nm: (new[nm][i], old[nm][i]), where=lambda *i: [i[0] != m])
                t = cx.index("frame", J)
                chosen = [p for p in perms if all(same(new["sequence"][m, n, t], old["sequence"][m, p[n], t]) for n in range(N))]
                cx.ensure("sequence: the processed bin is re-indexed by a permutation", len(chosen) == 1, "matching permutations %s" % chosen)
                if len(chosen) != 1:
                    return
                p = chosen[0]
                for nm, x in zip(names(n_args), e):
                    for n in range(N):
                        cx.forall("%s: the processed bin is re-indexed by the same permutation" % nm, [1] + real_list(x.shape[2:]), lambda z, *i, nm=nm, n=n: (new[nm][(m, n) + i], old[nm][(m, p[n]) + i]))

            sp = LoopSpec(states, check=check)
            c.loops(sp)
            out = call()
            c.ensure_int("every bin is processed", sp.n == I)
            outs = check_structure(c, out, n_args)
            frame(c, ow, outs, ins)
